------------------------------- MODULE MCGraph -------------------------------
(* The state machine on small graphs, exhaustively.  Initial states are all    *)
(* graphs of up to two nodes and two relationships (and all graphs of three     *)
(* plain nodes and up to two relationships); each step executes one of the      *)
(* queries of a property.  TLC checks the laws below in every state, and a      *)
(* history per state, executing the queries one by one in that state, is        *)
(* printed to be replayed by the real code.                                     *)
EXTENDS Cypher, Json, IOUtils

CONSTANTS Part,     \* the property
          Stride    \* print every Stride-th query of a state

I(n) == <<"int", n>>
Lit(v) == <<"lit", v>>
N(n) == Lit(I(n))
Str(x) == Lit(StrV(Codes(x)))
None == <<"none">>
V(x) == <<"var", x>>
P(x) == <<"prop", V(x), "p">>
Cmp(o, x, y) == <<"cmp", x, <<<<o, y>>>>>>
PM(n) == <<"map", <<<<"p", N(n)>>>>>>

Nd(v, ls, ps) == [var |-> v, labels |-> ls, props |-> ps]
n0(v) == Nd(v, <<>>, None)
nA(v) == Nd(v, <<"A">>, None)
nP(v, x) == Nd(v, <<>>, PM(x))
Rl(v, ts, d) == [var |-> v, types |-> ts, dir |-> d, rng |-> None, props |-> None]
RlP(v, ts, d, ps) == [Rl(v, ts, d) EXCEPT !.props = ps]
RlN(v, ts, d, a, b) == [Rl(v, ts, d) EXCEPT !.rng = <<a, b>>]
Pt(x) == [var |-> "", start |-> x, chain |-> <<>>]
Pt1(x, r, y) == [var |-> "", start |-> x, chain |-> <<[rel |-> r, node |-> y]>>]
Pt2(x, r, y, s, z) == [var |-> "", start |-> x, chain |-> <<[rel |-> r, node |-> y], [rel |-> s, node |-> z]>>]
Mt(ps, w) == [opt |-> FALSE, parts |-> ps, where |-> w]
Om(ps, w) == [opt |-> TRUE, parts |-> ps, where |-> w]
Ret0 == [distinct |-> FALSE, all |-> FALSE, items |-> <<>>, skip |-> None, limit |-> None]
Items(vs) == [i \in 1..Len(vs) |-> <<V(vs[i]), vs[i]>>]
Sq(rd, up, hr, rt) == [read |-> rd, upd |-> up, hasret |-> hr, ret |-> rt]
Q1(s) == [singles |-> <<s>>, alls |-> <<>>]
Rd(rd, vs) == Q1(Sq(rd, <<>>, TRUE, [Ret0 EXCEPT !.items = Items(vs)]))
RdE(rd, es) == Q1(Sq(rd, <<>>, TRUE, [Ret0 EXCEPT !.items = [i \in 1..Len(es) |-> <<es[i], "">>]]))
Up(rd, up) == Q1(Sq(rd, up, FALSE, Ret0))
UpR(rd, up, vs) == Q1(Sq(rd, up, TRUE, [Ret0 EXCEPT !.items = Items(vs)]))
Cr(ps) == [k |-> "create", parts |-> ps]
Mg(p, acts) == [k |-> "merge", part |-> p, actions |-> acts]
On(w, its) == [on |-> w, items |-> its]
St(its) == [k |-> "set", items |-> its]
Rm(its) == [k |-> "remove", items |-> its]
Dl(d, es) == [k |-> "delete", detach |-> d, exprs |-> es]
SetP(v, x) == <<"prop", V(v), "p", x>>
Uni(q, r, all) == [singles |-> q.singles \o r.singles, alls |-> <<all>>]

All(S) == SetToSeq(S)
Dirs == <<"out", "in", "both", "none">>

-----------------------------------------------------------------------------
(* The queries of each property                                                *)
Hop(x, r, y) == Rd(<<Mt(<<Pt1(x, r, y)>>, None)>>, <<"n", "r", "m">>)
Q11 == <<Rd(<<Mt(<<Pt(n0("n"))>>, None)>>, <<"n">>), Rd(<<Mt(<<Pt(nA("n"))>>, None)>>, <<"n">>), Rd(<<Mt(<<Pt(nP("n", 1))>>, None)>>, <<"n">>)>>
       \o [i \in 1..4 |-> Hop(n0("n"), Rl("r", <<>>, Dirs[i]), n0("m"))]
       \o [i \in 1..3 |-> Hop(nA("n"), Rl("r", <<"R">>, Dirs[i]), n0("m"))]
       \o [i \in 1..3 |-> Hop(nP("n", 1), Rl("r", <<"R", "S">>, Dirs[i]), nA("m"))]
       \o [i \in 1..3 |-> Hop(n0("n"), RlP("r", <<>>, Dirs[i], PM(1)), n0("m"))]
       \o [i \in 1..3 |-> Rd(<<Mt(<<Pt1(n0("n"), Rl("r", <<"S">>, Dirs[i]), n0("n"))>>, None)>>, <<"n", "r">>)]
       \o <<Rd(<<Mt(<<Pt2(n0("n"), Rl("r", <<>>, "out"), n0("m"), Rl("s", <<>>, "in"), nA("k"))>>, None)>>, <<"n", "r", "m", "s", "k">>),
            Rd(<<Mt(<<Pt2(nA("n"), Rl("", <<>>, "both"), n0("m"), Rl("", <<"R">>, "both"), n0("k"))>>, None)>>, <<"n", "m", "k">>),
            Rd(<<Mt(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m"))>>, Cmp("=", P("n"), N(1)))>>, <<"n", "r", "m">>),
            Rd(<<Mt(<<Pt(n0("n"))>>, <<"or", <<<<"haslabels", V("n"), <<"A">>>>, <<"isnull", P("n")>>>>>>)>>, <<"n">>)>>
Q12 == <<Rd(<<Mt(<<Pt(n0("n")), Pt(nA("m"))>>, None)>>, <<"n", "m">>),
         Rd(<<Mt(<<Pt(n0("n"))>>, None), Mt(<<Pt(nA("m"))>>, None)>>, <<"n", "m">>),
         Rd(<<Mt(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m")), Pt1(n0("m"), Rl("s", <<>>, "out"), n0("k"))>>, None)>>, <<"n", "r", "m", "s", "k">>),
         Rd(<<Mt(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m"))>>, None), Mt(<<Pt1(n0("k"), Rl("s", <<>>, "in"), n0("m"))>>, None)>>, <<"n", "r", "m", "s", "k">>),
         Rd(<<Mt(<<Pt(nA("n"))>>, None), Om(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m"))>>, None)>>, <<"n", "r", "m">>),
         Rd(<<Mt(<<Pt(n0("n"))>>, None), Om(<<Pt1(n0("n"), Rl("r", <<"R">>, "both"), nP("m", 1))>>, None)>>, <<"n", "r", "m">>),
         Rd(<<Om(<<Pt(nA("n"))>>, None)>>, <<"n">>),
         Rd(<<Om(<<Pt(nA("n"))>>, None), Om(<<Pt1(n0("n"), Rl("r", <<>>, "in"), n0("m"))>>, None)>>, <<"n", "r", "m">>),
         Rd(<<Mt(<<Pt(n0("n"))>>, None), Om(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m"))>>, Cmp("=", P("m"), N(1)))>>, <<"n", "m">>),
         Rd(<<Mt(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m"))>>, None), Mt(<<Pt1(n0("n"), Rl("s", <<>>, "out"), n0("m"))>>, None)>>, <<"n", "r", "s", "m">>),
         Rd(<<Mt(<<Pt1(n0("n"), Rl("r", <<>>, "both"), n0("m"))>>, None), Mt(<<Pt1(n0("a"), Rl("r", <<>>, "out"), n0("b"))>>, None)>>, <<"n", "r", "m", "a", "b">>),
         Rd(<<Mt(<<Pt(n0("n"))>>, None), Mt(<<Pt(n0("m"))>>, Cmp("<>", V("n"), V("m")))>>, <<"n", "m">>),
         Rd(<<Mt(<<Pt(n0("n")), Pt1(n0("m"), Rl("", <<>>, "out"), n0("n")), Pt(nA("m"))>>, None)>>, <<"n", "m">>)>>
Walk(d, ts, a, b) == Rd(<<Mt(<<Pt1(n0("n"), RlN("r", ts, d, a, b), n0("m"))>>, None)>>, <<"n", "r", "m">>)
Q13 == Concat([i \in 1..3 |-> <<Walk(Dirs[i], <<>>, -1, -1), Walk(Dirs[i], <<>>, 1, 1), Walk(Dirs[i], <<>>, 1, 2), Walk(Dirs[i], <<>>, 2, 2), Walk(Dirs[i], <<>>, 2, -1),
                               Walk(Dirs[i], <<"R">>, -1, 2), Walk(Dirs[i], <<>>, 3, 3), Walk(Dirs[i], <<>>, 2, 1)>>])
       \o <<Rd(<<Mt(<<Pt1(nA("n"), RlN("r", <<"R">>, "out", -1, -1), nP("m", 1))>>, None)>>, <<"n", "m">>),
            Rd(<<Mt(<<Pt2(n0("n"), RlN("r", <<>>, "out", 1, 2), n0("m"), Rl("s", <<>>, "out"), n0("k"))>>, None)>>, <<"n", "m", "s", "k">>),
            Rd(<<Mt(<<Pt1(n0("n"), [RlN("r", <<>>, "both", 1, 2) EXCEPT !.props = PM(1)], n0("m"))>>, None)>>, <<"n", "m">>),
            Rd(<<Mt(<<Pt1(n0("n"), RlN("", <<>>, "out", 1, 3), n0("n"))>>, None)>>, <<"n">>)>>
Q14 == <<Rd(<<Mt(<<Pt1(n0("n"), Rl("r", <<>>, "both"), n0("m"))>>, None)>>, <<"n", "r", "m">>),
         RdE(<<Mt(<<Pt(n0("n"))>>, None)>>, <<<<"bin", "/", N(1), P("n")>>>>),
         RdE(<<Mt(<<Pt(n0("n"))>>, None)>>, <<<<"bin", "/", N(1), <<"bin", "-", P("n"), N(1)>>>>>>),
         Up(<<Mt(<<Pt(n0("n"))>>, Cmp("=", <<"bin", "/", N(1), N(0)>>, N(1)))>>, <<St(<<SetP("n", N(2))>>)>>),
         Up(<<Mt(<<Pt(n0("n"))>>, None)>>, <<St(<<SetP("n", <<"bin", "+", V("zz"), N(1)>>)>>)>>),
         Up(<<Mt(<<Pt(nA("n"))>>, None)>>, <<Cr(<<Pt1(n0("n"), Rl("", <<"R">>, "out"), Nd("", <<>>, <<"map", <<<<"p", V("zz")>>>>>>))>>)>>),
         Up(<<Mt(<<Pt(n0("n"))>>, None)>>, <<Dl(FALSE, <<V("n")>>)>>),
         RdE(<<Mt(<<Pt(n0("n"))>>, None)>>, <<<<"list", <<P("n"), V("n")>>>>, <<"map", <<<<"n", V("n")>>>>>>>>)>>
Q15 == <<Up(<<>>, <<Cr(<<Pt(n0(""))>>)>>), Up(<<>>, <<Cr(<<Pt(Nd("n", <<"A">>, PM(1)))>>)>>),
         UpR(<<Mt(<<Pt(n0("n"))>>, None)>>, <<Cr(<<Pt1(n0("n"), Rl("r", <<"R">>, "out"), Nd("m", <<"A">>, None))>>)>>, <<"n", "r", "m">>),
         UpR(<<Mt(<<Pt(nA("n"))>>, None)>>, <<Cr(<<Pt1(n0("n"), Rl("r", <<"S">>, "in"), Nd("m", <<>>, PM(2)))>>)>>, <<"n", "r", "m">>),
         Up(<<Mt(<<Pt(n0("n"))>>, None)>>, <<Cr(<<Pt1(n0("n"), RlP("", <<"R">>, "out", PM(1)), n0("n"))>>)>>),
         Up(<<Mt(<<Pt(n0("n")), Pt(n0("m"))>>, Cmp("<>", V("n"), V("m")))>>, <<Cr(<<Pt1(n0("n"), Rl("", <<"R">>, "in"), n0("m"))>>)>>),
         UpR(<<>>, <<Cr(<<Pt2(nA("n"), Rl("r", <<"R">>, "out"), n0("m"), Rl("s", <<"S">>, "in"), n0("n"))>>)>>, <<"n", "r", "m", "s">>),
         UpR(<<>>, <<Cr(<<Pt(n0("n")), Pt1(n0("n"), Rl("r", <<"R">>, "out"), n0("m"))>>)>>, <<"n", "r", "m">>),
         UpR(<<Mt(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m"))>>, None)>>, <<Cr(<<Pt(Nd("k", <<"A">>, <<"map", <<<<"p", P("n")>>>>>>))>>)>>, <<"n", "k">>),
         Up(<<Om(<<Pt(nA("n"))>>, None)>>, <<Cr(<<Pt(Nd("", <<>>, <<"map", <<<<"p", P("n")>>>>>>))>>)>>),
         UpR(<<Mt(<<Pt(n0("n"))>>, None)>>, <<Cr(<<Pt(n0("m"))>>), Cr(<<Pt1(n0("m"), Rl("r", <<"R">>, "out"), n0("n"))>>)>>, <<"n", "m", "r">>)>>
Q16 == <<UpR(<<>>, <<Mg(Pt(nA("n")), <<>>)>>, <<"n">>), UpR(<<>>, <<Mg(Pt(Nd("n", <<"A">>, PM(1))), <<>>)>>, <<"n">>),
         UpR(<<>>, <<Mg(Pt(nP("n", 2)), <<On("create", <<<<"labels", "n", <<"A">>>>>>), On("match", <<SetP("n", N(1))>>)>>)>>, <<"n">>),
         UpR(<<>>, <<Mg(Pt1(nA("n"), Rl("r", <<"R">>, "out"), n0("m")), <<>>)>>, <<"n", "r", "m">>),
         UpR(<<Mt(<<Pt(n0("n"))>>, None)>>, <<Mg(Pt1(n0("n"), Rl("r", <<"R">>, "out"), n0("n")), <<>>)>>, <<"n", "r">>),
         UpR(<<Mt(<<Pt(nA("n"))>>, None)>>, <<Mg(Pt1(n0("n"), Rl("r", <<"S">>, "in"), nP("m", 1)), <<On("match", <<SetP("m", N(2))>>)>>)>>, <<"n", "r", "m">>),
         UpR(<<Mt(<<Pt(n0("n")), Pt(n0("m"))>>, None)>>, <<Mg(Pt1(n0("n"), Rl("r", <<"R">>, "out"), n0("m")), <<On("create", <<SetP("r", N(1))>>)>>)>>, <<"n", "r", "m">>),
         UpR(<<Mt(<<Pt(n0("n"))>>, None)>>, <<Mg(Pt1(n0("n"), RlP("r", <<"R">>, "out", PM(1)), n0("m")), <<>>)>>, <<"n", "r", "m">>),
         UpR(<<Mt(<<Pt(nA("n"))>>, None)>>, <<Mg(Pt(Nd("m", <<>>, <<"map", <<<<"p", <<"bin", "+", N(1), N(1)>>>>>>>>)), <<>>)>>, <<"n", "m">>),
         UpR(<<Mt(<<Pt(n0("n"))>>, None)>>, <<Mg(Pt(n0("m")), <<On("match", <<SetP("n", N(2))>>)>>)>>, <<"n", "m">>),
         UpR(<<Mt(<<Pt(n0("n"))>>, None)>>, <<Mg(Pt1(n0("n"), Rl("r", <<"R">>, "both"), n0("m")), <<>>)>>, <<"n", "r", "m">>)>>
MA == Mt(<<Pt(n0("n"))>>, None)
ME == Mt(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m"))>>, None)
Q17 == <<Up(<<MA>>, <<St(<<SetP("n", N(2))>>)>>), Up(<<MA>>, <<St(<<SetP("n", Lit(Null))>>)>>), Up(<<MA>>, <<Rm(<<<<"prop", V("n"), "p">>>>)>>),
         Up(<<Mt(<<Pt(nA("n"))>>, None)>>, <<St(<<<<"=", "n", <<"map", <<<<"p", N(2)>>>>>>>>>>)>>),
         Up(<<MA>>, <<St(<<<<"=", "n", <<"map", <<>>>>>>>>)>>),
         Up(<<MA>>, <<St(<<<<"+=", "n", <<"map", <<<<"p", Lit(Null)>>>>>>>>>>)>>),
         Up(<<MA>>, <<St(<<<<"+=", "n", <<"map", <<<<"q", N(1)>>>>>>>>>>)>>),
         Up(<<MA>>, <<St(<<<<"labels", "n", <<"A">>>>>>)>>), Up(<<MA>>, <<Rm(<<<<"labels", "n", <<"A">>>>>>)>>),
         Up(<<ME>>, <<St(<<SetP("r", N(1))>>)>>), Up(<<ME>>, <<Rm(<<<<"prop", V("r"), "p">>>>)>>),
         Up(<<ME>>, <<St(<<SetP("m", <<"bin", "+", N(1), N(1)>>), <<"labels", "n", <<"B", "A">>>>>>)>>),
         Up(<<ME>>, <<St(<<<<"=", "r", <<"map", <<<<"p", N(1)>>>>>>>>>>)>>),
         Up(<<MA, Om(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m"))>>, None)>>, <<St(<<SetP("m", N(1))>>)>>),
         UpR(<<MA>>, <<St(<<SetP("n", N(2))>>), Rm(<<<<"labels", "n", <<"A">>>>>>)>>, <<"n">>)>>
Q18 == <<Up(<<MA>>, <<Dl(FALSE, <<V("n")>>)>>), Up(<<MA>>, <<Dl(TRUE, <<V("n")>>)>>), Up(<<ME>>, <<Dl(FALSE, <<V("r")>>)>>),
         Up(<<ME>>, <<Dl(FALSE, <<V("r"), V("n")>>)>>), Up(<<ME>>, <<Dl(FALSE, <<V("n"), V("r"), V("m")>>)>>),
         Up(<<ME>>, <<Dl(TRUE, <<V("m")>>)>>), Up(<<Mt(<<Pt(nA("n"))>>, None)>>, <<Dl(TRUE, <<V("n")>>)>>),
         Up(<<Mt(<<Pt(nP("n", 1))>>, None)>>, <<Dl(FALSE, <<V("n")>>)>>),
         Up(<<Om(<<Pt(nA("n"))>>, None)>>, <<Dl(FALSE, <<V("n")>>)>>),
         Up(<<MA, Om(<<Pt1(n0("n"), Rl("r", <<>>, "out"), n0("m"))>>, None)>>, <<Dl(FALSE, <<V("r")>>)>>),
         Up(<<Mt(<<Pt(n0("n")), Pt(n0("m"))>>, None)>>, <<Dl(TRUE, <<V("n"), V("m")>>)>>),
         Up(<<Mt(<<Pt1(n0("n"), Rl("r", <<"R">>, "both"), n0("m"))>>, None)>>, <<Dl(FALSE, <<V("r")>>)>>),
         Up(<<MA>>, <<Dl(FALSE, <<P("n")>>)>>)>>
RA == Rd(<<Mt(<<Pt(nA("n"))>>, None)>>, <<"n">>)
RN == Rd(<<MA>>, <<"n">>)
RP == Q1(Sq(<<MA>>, <<>>, TRUE, [Ret0 EXCEPT !.items = <<<<P("n"), "x">>>>]))
RQ == Q1(Sq(<<ME>>, <<>>, TRUE, [Ret0 EXCEPT !.items = <<<<P("m"), "x">>>>]))
Q19 == <<Uni(RA, RN, FALSE), Uni(RA, RN, TRUE), Uni(RN, RN, FALSE), Uni(RN, RN, TRUE), Uni(RP, RQ, FALSE), Uni(RP, RQ, TRUE), Uni(RP, RP, FALSE),
         [singles |-> RA.singles \o RN.singles \o RA.singles, alls |-> <<TRUE, FALSE>>],
         [singles |-> RA.singles \o RN.singles \o RA.singles, alls |-> <<FALSE, TRUE>>]>>
With(q, d, s, l) == Q1([q.singles[1] EXCEPT !.ret.distinct = d, !.ret.skip = s, !.ret.limit = l])
Q20 == <<RN, RP, With(RP, TRUE, None, None), With(RQ, TRUE, None, None), With(RN, FALSE, N(1), None), With(RN, FALSE, None, N(1)), With(RN, FALSE, N(1), N(1)),
         With(RN, FALSE, N(0), N(0)), With(RN, FALSE, N(9), N(9)), With(RP, TRUE, N(1), None), With(RQ, TRUE, None, N(1)),
         Q1([RQ.singles[1] EXCEPT !.ret.all = TRUE]), RdE(<<>>, <<N(1), Str("a")>>),
         RdE(<<MA>>, <<P("n"), <<"isnull", P("n")>>, <<"haslabels", V("n"), <<"A">>>>, <<"call", "labels", <<V("n")>>>>>>),
         RdE(<<ME>>, <<<<"call", "type", <<V("r")>>>>, Cmp("=", V("n"), V("m"))>>),
         Q1(Sq(<<ME>>, <<>>, TRUE, [Ret0 EXCEPT !.distinct = TRUE, !.items = <<<<V("n"), "n">>, <<P("m"), "x">>>>]))>>

Every(k, s) == [i \in 1..((Len(s) + k - 1) \div k) |-> s[(i - 1) * k + 1]]
Q23 == Every(3, Q15) \o Every(2, Q16) \o Every(3, Q17) \o Every(2, Q18)
Queries == CASE Part = "C11" -> Q11 [] Part = "C12" -> Q12 [] Part = "C13" -> Q13 [] Part = "C14" -> Q14 [] Part = "C15" -> Q15
             [] Part = "C16" -> Q16 [] Part = "C17" -> Q17 [] Part = "C18" -> Q18 [] Part = "C19" -> Q19 [] Part = "C20" -> Q20
             [] Part = "C22" -> Every(4, Q11) \o Every(4, Q12) \o Every(3, Q15) \o Every(3, Q16) \o Every(4, Q17) \o Every(4, Q18) \o Every(5, Q20)
             [] Part = "C23" -> Q23
             [] Part = "C24" -> Q15 \o Every(2, Q16) \o Every(2, Q17)

-----------------------------------------------------------------------------
(* The states                                                                  *)
Kinds == {[labels |-> l, props |-> q] : l \in {{}, {"A"}}, q \in {EmptyFn, [p |-> I(1)]}}
Ends(n) == {<<f, t>> : f \in 0..(n - 1), t \in 0..(n - 1)}
Joins(n, types) == {<<e[1], e[2], t>> : e \in Ends(n), t \in types}
Rank(x) == x[1] * 20 + x[2] * 5 + (IF x[3] = "R" THEN 0 ELSE 1)
\* up to k relationships, in one order
EdgeSeqs(n, types, k) == {<<>>} \cup {<<x>> : x \in Joins(n, types)}
                         \cup (IF k < 2 THEN {} ELSE {<<x, y>> : x \in Joins(n, types), y \in Joins(n, types)})
Ordered(s) == \A i \in 1..(Len(s) - 1) : Rank(s[i]) <= Rank(s[i + 1])
Mk(ks, es) == [nodes |-> [i \in 0..(Len(ks) - 1) |-> ks[i + 1]],
               edges |-> [i \in Len(ks)..(Len(ks) + Len(es) - 1) |->
                            LET e == es[i - Len(ks) + 1]
                            IN [from |-> e[1], to |-> e[2], label |-> e[3],
                                props |-> IF e[3] = "R" /\ e[1] <= e[2] THEN [p |-> I(1)] ELSE EmptyFn]]]
Plain == [labels |-> {}, props |-> EmptyFn]
Universe ==
  {Mk(<<>>, <<>>)}
  \cup {Mk(<<k>>, s) : k \in Kinds, s \in {x \in EdgeSeqs(1, {"R", "S"}, 2) : Ordered(x)}}
  \cup {Mk(<<k, l>>, s) : k \in Kinds, l \in Kinds, s \in {x \in EdgeSeqs(2, {"R", "S"}, 2) : Ordered(x)}}
  \cup {Mk(<<Plain, Plain, Plain>>, s) : s \in {x \in EdgeSeqs(3, {"R"}, 2) : Ordered(x)}}

\* new nodes and relationships get the next ids
IdOrder(S) == SortSeq(SetToSeq(S), LAMBDA x, y : (IF x < 0 THEN 1000 - x ELSE x) < (IF y < 0 THEN 1000 - y ELSE y))
Pos(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
Canon(gr) ==
  LET ns == TLCEval(IdOrder(DOMAIN gr.nodes))
      es == TLCEval(IdOrder(DOMAIN gr.edges))
      k == Len(ns)
  IN [nodes |-> [i \in 0..(k - 1) |-> gr.nodes[ns[i + 1]]],
      edges |-> [i \in k..(k + Len(es) - 1) |-> LET e == gr.edges[es[i - k + 1]]
                                               IN [e EXCEPT !.from = Pos(@, ns) - 1, !.to = Pos(@, ns) - 1]]]

Run(q, gr) == TLCEval(RunQuery(q, EnvOf(gr, EmptyFn, EmptyFn, "none"), -1, <<>>))
Small(gr) == Cardinality(DOMAIN gr.nodes) <= 2 /\ Cardinality(DOMAIN gr.edges) <= 2

VARIABLE stage   \* 0..: a part of the universe; -1: one of its graphs; -2: what a query made of it
Parts == 64
Bucket(gr) == FoldLeft(LAMBDA a, x : a + x, 0, SetToSeq({n * 7 + Cardinality(gr.nodes[n].labels) * 3 + Cardinality(DOMAIN gr.nodes[n].props) : n \in DOMAIN gr.nodes}
                \cup {100 + e * 13 + gr.edges[e].from * 5 + gr.edges[e].to * 3 + (IF gr.edges[e].label = "R" THEN 1 ELSE 0) : e \in DOMAIN gr.edges}))
Init == graph = Mk(<<>>, <<>>) /\ cvars = EmptyFn /\ stage \in 0..(Parts - 1)
Pick == stage >= 0 /\ stage' = -1 /\ graph' \in {x \in Universe : Bucket(x) % Parts = stage} /\ cvars' = cvars
Step == /\ stage = -1 /\ stage' = -2 /\ cvars' = cvars
        /\ \E i \in 1..Len(Queries) : LET r == Run(Queries[i], graph)
                                      IN /\ IsUpdating(Queries[i]) /\ r.k = "ok" /\ Small(r.g)
                                         /\ graph' = TLCEval(Canon(r.g))
Spec0 == Init /\ [][Pick]_<<graph, cvars, stage>>              \* the small graphs alone
Spec == Init /\ [][Pick \/ Step]_<<graph, cvars, stage>>       \* and what the queries make of them

-----------------------------------------------------------------------------
(* Laws, for every query of the property in every state                        *)
NodeIds == DOMAIN graph.nodes
EdgeIds == DOMAIN graph.edges
Rows(q) == Run(q, graph).rows
Has(n, np) == Range1(np.labels) \subseteq graph.nodes[n].labels
              /\ (np.props # None => "p" \in DOMAIN graph.nodes[n].props /\ graph.nodes[n].props["p"] = np.props[2][1][2][2])
HasE(e, rp) == (rp.types = <<>> \/ graph.edges[e].label \in Range1(rp.types))
               /\ (rp.props # None => "p" \in DOMAIN graph.edges[e].props /\ graph.edges[e].props["p"] = rp.props[2][1][2][2])
\* a single relationship pattern, directly from the definition
HopRows(pt) ==
  LET x == pt.start r == pt.chain[1].rel y == pt.chain[1].node
      fwd == {<<graph.edges[e].from, e, graph.edges[e].to>> : e \in EdgeIds}
      bwd == {<<graph.edges[e].to, e, graph.edges[e].from>> : e \in EdgeIds}
      cand == CASE r.dir = "out" -> fwd [] r.dir = "in" -> bwd [] OTHER -> fwd \cup bwd
  IN {t \in cand : Has(t[1], x) /\ HasE(t[2], r) /\ Has(t[3], y) /\ (x.var = y.var => t[1] = t[3])}
IsHop(q) == LET s == q.singles[1] IN Len(s.read) = 1 /\ Len(s.read[1].parts) = 1 /\ Len(s.read[1].parts[1].chain) = 1
                                     /\ s.read[1].where = None /\ s.read[1].parts[1].chain[1].rel.rng = None

L11(q) == IsHop(q) => /\ Len(Rows(q)) = Cardinality(HopRows(q.singles[1].read[1].parts[1]))
                      /\ {<<Rows(q)[i]["n"][2], Rows(q)[i]["r"][2][1], Rows(q)[i][IF "m" \in DOMAIN Rows(q)[i] THEN "m" ELSE "n"][2]>> : i \in 1..Len(Rows(q))}
                           \subseteq HopRows(q.singles[1].read[1].parts[1])

\* the order of patterns, and whether they stand in one MATCH or several, do not matter
Rearranged(q) ==
  LET rd == q.singles[1].read
      plain == \A i \in 1..Len(rd) : ~rd[i].opt /\ rd[i].where = None
      parts == Concat([i \in 1..Len(rd) |-> rd[i].parts])
  IN IF ~plain THEN {}
     ELSE {[q EXCEPT !.singles[1].read = <<Mt(parts, None)>>],
           [q EXCEPT !.singles[1].read = <<Mt(Reverse(parts), None)>>],
           [q EXCEPT !.singles[1].read = [i \in 1..Len(parts) |-> Mt(<<parts[i]>>, None)]]}
L12(q) == /\ \A q2 \in Rearranged(q) : Run(q, graph).k = "ok" /\ Run(q2, graph).k = "ok" => BagEq(Rows(q), Rows(q2))
          /\ LET rd == q.singles[1].read
             IN rd[Len(rd)].opt /\ Len(rd) > 1 =>
                  \* every row stays
                  LET rest == [q EXCEPT !.singles[1].read = SubSeq(rd, 1, Len(rd) - 1), !.singles[1].ret.items = Items(<<"n">>)]
                  IN \A x \in Range1(Rows(rest)) : \E y \in Range1(Rows(q)) : y["n"] = x["n"]

L13(q) == LET s == q.singles[1] r == s.read[1].parts[1].chain[1].rel IN
            Len(s.read[1].parts[1].chain) = 1 /\ r.var = "r" /\ Len(s.ret.items) = 3 =>
              LET only(a, b) == [q EXCEPT !.singles[1].read[1].parts[1].chain[1].rel.rng = <<a, b>>]
                  lo == Max2(1, r.rng[1])
                  hi == IF r.rng[2] < 0 THEN Cardinality(EdgeIds) ELSE r.rng[2]
              IN /\ BagEq(Rows(q), Concat([k \in 1..Max2(0, hi - lo + 1) |-> Rows(only(lo + k - 1, lo + k - 1))]))
                 /\ \A x \in Range1(Rows(q)) : Len(x["r"][2]) \in lo..hi /\ IsInjective(x["r"][2])

L15(q) == LET r == Run(q, graph)
              nrows == IF q.singles[1].read = <<>> THEN 1 ELSE Len(Rows([q EXCEPT !.singles[1].upd = <<>>, !.singles[1].hasret = TRUE, !.singles[1].ret = Ret0]))
          IN r.k = "ok" => /\ Restrict1(r.g.nodes, NodeIds) = graph.nodes
                           /\ Restrict1(r.g.edges, EdgeIds) = graph.edges
                           /\ (nrows = 0 => r.g = graph)
                           /\ nrows > 0 => (Cardinality(DOMAIN r.g.nodes) - Cardinality(NodeIds)) % nrows = 0
                                           /\ (Cardinality(DOMAIN r.g.edges) - Cardinality(EdgeIds)) % nrows = 0
L16(q) == LET r == Run(q, graph) IN r.k = "ok" =>
            /\ (q.singles[1].read = <<>> /\ q.singles[1].upd[1].actions = <<>> => Run(q, Canon(r.g)).g = Canon(r.g))
            /\ (DOMAIN r.g.nodes # NodeIds => \A n \in NodeIds : n \in DOMAIN r.g.nodes)
L17(q) == LET r == Run(q, graph) IN r.k = "ok" =>
            /\ DOMAIN r.g.nodes = NodeIds /\ DOMAIN r.g.edges = EdgeIds
            /\ \A e \in EdgeIds : r.g.edges[e].from = graph.edges[e].from /\ r.g.edges[e].to = graph.edges[e].to
            /\ (\A m \in Range1(q.singles[1].read) : \A p \in Range1(m.parts) : p.start.labels = <<>> => Run(q, r.g).g = r.g)
L18(q) == LET r == Run(q, graph) IN
            /\ r.k = "ok" => Restrict1(graph.nodes, DOMAIN r.g.nodes) = r.g.nodes /\ Restrict1(graph.edges, DOMAIN r.g.edges) = r.g.edges
            /\ r.k = "err" => r.g = graph
            /\ q.singles[1].upd[1].detach => r.k = "ok"
L19(q) == LET part(i) == Rows(Q1(q.singles[i]))
              all == Concat([i \in 1..Len(q.singles) |-> part(i)])
          IN /\ (\A i \in 1..Len(q.alls) : q.alls[i]) => BagEq(Rows(q), all)
             /\ (~Last1(q.alls) => \A i, j \in 1..Len(Rows(q)) : SameRow(Rows(q)[i], Rows(q)[j]) => i = j)
             /\ \A x \in Range1(all) : \E y \in Range1(Rows(q)) : SameRow(x, y)
L20(q) == LET r == Run(q, graph) IN r.k = "ok" =>
            /\ r.n <= Len(r.rows)
            /\ q.singles[1].ret.distinct => \A i, j \in 1..Len(r.rows) : SameRow(r.rows[i], r.rows[j]) => i = j

LawOf(q) == CASE Part = "C11" -> L11(q) [] Part = "C12" -> L12(q) [] Part = "C13" -> L13(q) [] Part = "C15" -> L15(q)
              [] Part = "C16" -> L16(q) [] Part = "C17" -> L17(q) [] Part = "C18" -> L18(q) [] Part = "C19" -> L19(q)
              [] Part = "C20" -> L20(q) [] OTHER -> TRUE
Frame(q) == LET r == Run(q, graph) IN WellFormed(r.g) /\ (~IsUpdating(q) => r.g = graph) /\ r.k \in {"ok", "err", "any"}
Laws == stage >= 0 \/ (WellFormed(graph) /\ \A i \in 1..Len(Queries) : Frame(Queries[i]) /\ LawOf(Queries[i]))

-----------------------------------------------------------------------------
(* The histories                                                               *)
GraphJ(gr) == [nodes |-> [i \in 1..Cardinality(DOMAIN gr.nodes) |-> <<i - 1, SetToSeq(gr.nodes[i - 1].labels), gr.nodes[i - 1].props>>],
               edges |-> LET k == Cardinality(DOMAIN gr.nodes)
                         IN [i \in 1..Cardinality(DOMAIN gr.edges) |->
                              LET e == gr.edges[k + i - 1] IN <<k + i - 1, e.from, e.to, e.label, e.props>>]]
Chosen == SelectSeq([i \in 1..Len(Queries) |-> i], LAMBDA i : (i + Bucket(graph)) % Stride = 0)
Filt == IF Part = "C24" THEN "shift" ELSE "none"
Case == [g0 |-> GraphJ(graph), v0 |-> EmptyFn,
         ev |-> Concat([j \in 1..Len(Chosen) |->
                 <<[ev |-> "load", g |-> GraphJ(graph), vars |-> EmptyFn],
                   [ev |-> "exec", q |-> Queries[Chosen[j]], par |-> EmptyFn, filt |-> Filt, cache |-> "mc:" \o ToString(Chosen[j])]>>])]
Emit == stage >= 0 \/ Chosen = <<>> \/ PrintT("CASE " \o ToJson(Case))
=============================================================================
