-------------------------------- MODULE Trace --------------------------------
(* Trace validation.  Each line of IOEnv.TRACE is one recorded history of the *)
(* real implementation: an initial graph and context and a sequence of        *)
(* events with the observed outcome.  TLC follows every history, asks the     *)
(* specification for the permitted outcomes of each event, and resumes from   *)
(* the observed state.                                                        *)
EXTENDS Cypher, Lex, Api, Scopes, Json, IOUtils

VARIABLES hist, pos, verdict   \* no bound variable may bear these names: TLC would not cache the constants using it

T == ndJsonDeserialize(IOEnv.TRACE)

-----------------------------------------------------------------------------
NodesOf(j) == LET N == Len(j.nodes)
              IN [id \in {j.nodes[k][1] : k \in 1..N} |->
                   LET r == j.nodes[CHOOSE k \in 1..N : j.nodes[k][1] = id]
                   IN [labels |-> Range1(r[2]), props |-> r[3]]]
EdgesOf(j) == LET N == Len(j.edges)
              IN [id \in {j.edges[k][1] : k \in 1..N} |->
                   LET r == j.edges[CHOOSE k \in 1..N : j.edges[k][1] = id]
                   IN [from |-> r[2], to |-> r[3], label |-> r[4], props |-> r[5]]]
GraphOf(j) == TLCEval([nodes |-> NodesOf(j), edges |-> EdgesOf(j)])
DupIds(j) == \/ \E a, b \in 1..Len(j.nodes) : a < b /\ j.nodes[a][1] = j.nodes[b][1]
             \/ \E a, b \in 1..Len(j.edges) : a < b /\ j.edges[a][1] = j.edges[b][1]

-----------------------------------------------------------------------------
(* The other ways to look at the same graph must agree with it.               *)
ViewsOk(v, gr) ==
  /\ v.numNodes = Cardinality(DOMAIN gr.nodes)
  /\ v.numEdges = Cardinality(DOMAIN gr.edges)
  /\ \A k \in 1..Len(v.out) : BagEq(v.out[k][2], SetToSeq({e \in DOMAIN gr.edges : gr.edges[e].from = v.out[k][1]}))
  /\ \A k \in 1..Len(v.inc) : BagEq(v.inc[k][2], SetToSeq({e \in DOMAIN gr.edges : gr.edges[e].to = v.inc[k][1]}))
  /\ {v.out[k][1] : k \in 1..Len(v.out)} = DOMAIN gr.nodes
  /\ {v.inc[k][1] : k \in 1..Len(v.inc)} = DOMAIN gr.nodes
  /\ \A k \in 1..Len(v.byLabel) : BagEq(v.byLabel[k][2],
        SetToSeq({n \in DOMAIN gr.nodes : v.byLabel[k][1] \in gr.nodes[n].labels}))
  /\ \A k \in 1..Len(v.byType) : BagEq(v.byType[k][2],
        SetToSeq({e \in DOMAIN gr.edges : gr.edges[e].label = v.byType[k][1]}))

-----------------------------------------------------------------------------
(* Comparison of a predicted outcome with an observed one, up to the identity *)
(* of created entities (f: predicted id -> observed id).                      *)
IdMap(f, n) == IF n \in DOMAIN f THEN f[n] ELSE n
RECURSIVE MapVal(_, _)
MapVal(f, v) == CASE v[1] = "node" -> <<"node", IdMap(f, v[2])>>
                  [] v[1] = "rel" -> RelV([k \in 1..Len(v[2]) |-> IdMap(f, v[2][k])])
                  [] v[1] = "list" -> ListV([k \in 1..Len(v[2]) |-> MapVal(f, v[2][k])])
                  [] v[1] = "map" -> MapV([k \in DOMAIN v[2] |-> MapVal(f, v[2][k])])
                  [] OTHER -> v
MapRow(f, r) == [k \in DOMAIN r |-> MapVal(f, r[k])]

SameNum(r, s) == NumOf(r, s)
LooseCount(r, s) == Cardinality({k \in 1..Len(s) : SameRow(r, s[k])})
LooseBagEq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : LooseCount(s[k], s) = LooseCount(s[k], t)
LooseSubBag(s, t) == Len(s) <= Len(t) /\ \A k \in 1..Len(s) : LooseCount(s[k], s) <= LooseCount(s[k], t)

Loose(q) == \/ \E k \in 1..Len(q.alls) : ~q.alls[k]
            \/ \E k \in 1..Len(q.singles) : q.singles[k].hasret /\ q.singles[k].ret.distinct

RowsOk(q, r, f, rows) ==
  LET want == [k \in 1..Len(r.rows) |-> MapRow(f, r.rows[k])]
  IN IF r.n = Len(r.rows)
     THEN IF Loose(q) THEN LooseBagEq(rows, want) ELSE BagEq(rows, want)
     ELSE Len(rows) = r.n /\ (IF Loose(q) THEN LooseSubBag(rows, want) ELSE IsSubBag(rows, want))

ColsOk(q, out) == q.singles[1].hasret /\ ~q.singles[1].ret.all =>
                    LET its == q.singles[1].ret.items
                    IN out.cols = [k \in 1..Len(its) |-> ColName(its, k)]

\* entities that were created and removed again by the same query have no identity
RECURSIVE NormVal(_, _, _)
NormVal(v, ns, es) == CASE v[1] = "node" -> (IF v[2] \in ns THEN v ELSE <<"node", -999999>>)
                        [] v[1] = "rel" -> RelV([k \in 1..Len(v[2]) |-> IF v[2][k] \in es THEN v[2][k] ELSE -999999])
                        [] v[1] = "list" -> ListV([k \in 1..Len(v[2]) |-> NormVal(v[2][k], ns, es)])
                        [] v[1] = "map" -> MapV([k \in DOMAIN v[2] |-> NormVal(v[2][k], ns, es)])
                        [] OTHER -> v
NormRow(row, gr) == [k \in DOMAIN row |-> NormVal(row[k], DOMAIN graph.nodes \cup DOMAIN gr.nodes, DOMAIN graph.edges \cup DOMAIN gr.edges)]

\* Created entities are told apart by what can be observed about them (their
\* colour): content, neighbourhood, and the result rows they appear in.
BagFn(s) == [x \in Range1(s) |-> NumOf(x, s)]
RECURSIVE Mask(_, _)
\* c: colour of the created entities
Mask(c, v) == CASE v[1] = "node" -> (IF <<"n", v[2]>> \in DOMAIN c THEN <<"newnode", c[<<"n", v[2]>>]>> ELSE v)
                [] v[1] = "rel" -> <<"relbag", BagFn([k \in 1..Len(v[2]) |->
                     IF <<"e", v[2][k]>> \in DOMAIN c THEN <<"new", c[<<"e", v[2][k]>>]>> ELSE <<"old", v[2][k]>>])>>
                [] v[1] = "list" -> ListV([k \in 1..Len(v[2]) |-> Mask(c, v[2][k])])
                [] v[1] = "map" -> MapV([k \in DOMAIN v[2] |-> Mask(c, v[2][k])])
                [] OTHER -> v
MaskRow(c, row) == [k \in DOMAIN row |-> Mask(c, row[k])]

RECURSIVE Mentions(_, _)
Mentions(v, x) == CASE v[1] = "node" -> x = <<"n", v[2]>>
                    [] v[1] = "rel" -> \E k \in 1..Len(v[2]) : x = <<"e", v[2][k]>>
                    [] v[1] = "list" -> \E k \in 1..Len(v[2]) : Mentions(v[2][k], x)
                    [] v[1] = "map" -> \E k \in DOMAIN v[2] : Mentions(v[2][k], x)
                    [] OTHER -> FALSE

End(c, id) == IF <<"n", id>> \in DOMAIN c THEN <<"new", c[<<"n", id>>]>> ELSE <<"old", id>>
Colour0(gr, new) ==
  [x \in new |-> IF x[1] = "n" THEN <<gr.nodes[x[2]].labels, gr.nodes[x[2]].props>>
                 ELSE <<{gr.edges[x[2]].label}, gr.edges[x[2]].props>>]
Colour1(gr, new, c) ==
  LET es == SetToSeq({x[2] : x \in {y \in new : y[1] = "e"}})
      out(n) == SelectSeq(es, LAMBDA e : gr.edges[e].from = n)
      inc(n) == SelectSeq(es, LAMBDA e : gr.edges[e].to = n)
  IN [x \in new |->
        IF x[1] = "e" THEN <<c[x], End(c, gr.edges[x[2]].from), End(c, gr.edges[x[2]].to)>>
        ELSE <<c[x], BagFn([k \in 1..Len(out(x[2])) |-> <<c[<<"e", out(x[2])[k]>>], End(c, gr.edges[out(x[2])[k]].to)>>]),
                     BagFn([k \in 1..Len(inc(x[2])) |-> <<c[<<"e", inc(x[2])[k]>>], End(c, gr.edges[inc(x[2])[k]].from)>>])>>]
\* the rows that mention x, and the columns it is in
Colour2(new, c, rows) ==
  [x \in new |-> LET rs == SelectSeq(rows, LAMBDA row : \E k \in DOMAIN row : Mentions(row[k], x))
                 IN <<c[x], BagFn([k \in 1..Len(rs) |-> <<MaskRow(c, rs[k]), {y \in DOMAIN rs[k] : Mentions(rs[k][y], x)}>>])>>]
Colour(gr, new, rows) ==
  LET c0 == TLCEval(Colour0(gr, new))
      c1 == TLCEval(IF Cardinality(new) < 2 THEN c0 ELSE Colour1(gr, new, c0))
      c2 == TLCEval(IF Cardinality(new) < 3 THEN c1 ELSE Colour1(gr, new, c1))
  IN IF Cardinality(new) < 2 \/ rows = <<>> THEN c2 ELSE Colour2(new, c2, rows)

RECURSIVE FinalVars(_, _)
\* the variables that the context may be left with
FinalVars(cur, leaks) == IF leaks = <<>> THEN {cur}
                         ELSE UNION {FinalVars(v, Tail(leaks)) : v \in Leaves(leaks[1], cur)}

RECURSIVE Assign(_, _, _, _, _, _, _)
\* todo: created entities still to be matched, each <<"n"|"e", predicted id>>
\* f: predicted id -> observed id; c, d: colours of the predicted and of the
\* observed created entities; full: all rows are predicted
Assign(todo, f, r, e, c, d, full) ==
  IF todo = <<>> THEN RowsOk(e.q, r, f, e.out.rows)
  ELSE
    LET t == todo[1]
        cands == {x[2] : x \in {y \in DOMAIN d : y[1] = t[1] /\ d[y] = c[t]}} \ {f[x] : x \in DOMAIN f}
        p == GraphOf(e.post)
        fits(x) == t[1] = "e" => LET m == r.g.edges[t[2]]
                                 IN p.edges[x].from = IdMap(f, m.from) /\ p.edges[x].to = IdMap(f, m.to)
        done(row) == (\E j \in DOMAIN row : Mentions(row[j], t))
                       /\ \A s \in Range1(Tail(todo)) : \A j \in DOMAIN row : ~Mentions(row[j], s)
    IN \E x \in cands :
         LET f1 == Over(f, [y \in {t[2]} |-> x])
         IN /\ fits(x)
            /\ full => \A k \in 1..Len(r.rows) : done(r.rows[k]) =>
                         \E j \in 1..Len(e.out.rows) : e.out.rows[j] = MapRow(f1, r.rows[k])
            /\ Assign(Tail(todo), f1, r, e, c, d, full)

\* created entities in the order of their creation: an edge follows its ends
Todo(new) == SortSeq(SetToSeq(new), LAMBDA x, y : x[2] > y[2])

Accepts(r0, e0) ==
  LET p == GraphOf(e0.post)
      r == TLCEval([r0 EXCEPT !.rows = [k \in 1..Len(@) |-> NormRow(@[k], r0.g)],
                              !.leaks = [k \in 1..Len(@) |-> [@[k] EXCEPT !.src =
                                 [j \in 1..Len(@) |-> NormRow(@[j], r0.g)]]]])
      e == TLCEval([e0 EXCEPT !.vars = NormRow(@, p), !.out.rows = [k \in 1..Len(@) |-> NormRow(@[k], p)]])
      new == {<<"n", x>> : x \in DOMAIN r.g.nodes \ DOMAIN graph.nodes}
             \cup {<<"e", x>> : x \in DOMAIN r.g.edges \ DOMAIN graph.edges}
      newP == {<<"n", x>> : x \in DOMAIN p.nodes \ DOMAIN graph.nodes}
              \cup {<<"e", x>> : x \in DOMAIN p.edges \ DOMAIN graph.edges}
      full == r.n = Len(r.rows) /\ ~Loose(e.q)
      c == TLCEval(Colour(r.g, new, IF full THEN r.rows ELSE <<>>))
      d == TLCEval(Colour(p, newP, IF full THEN e.out.rows ELSE <<>>))
      \* the same with the variables left behind taken into account
      finals == {v \in FinalVars(cvars, r.leaks) : MaskRow(c, v) = MaskRow(d, e.vars)}
      class(cc, x) == Cardinality({y \in DOMAIN cc : cc[y] = cc[x]})
      sameColours(cc, dd) == /\ {cc[x] : x \in new} = {dd[x] : x \in newP}
                             /\ \A x \in new : class(cc, x) = Cardinality({y \in newP : dd[y] = cc[x]})
      works(v) == LET cc == TLCEval(Colour2(new, c, <<v>>))
                      dd == TLCEval(Colour2(newP, d, <<e.vars>>))
                  IN sameColours(cc, dd) /\ Assign(Todo(new), EmptyFn, r, e, cc, dd, full)
  IN /\ Restrict1(p.nodes, DOMAIN graph.nodes) = Restrict1(r.g.nodes, DOMAIN graph.nodes)
     /\ Restrict1(p.edges, DOMAIN graph.edges) = Restrict1(r.g.edges, DOMAIN graph.edges)
     /\ Cardinality(new) = Cardinality(newP)
     /\ e.filt # "none" => BagEq(e.log, r.log)
     /\ ColsOk(e.q, e.out)
     /\ sameColours(c, d)
     /\ full /\ new # {} => BagEq([k \in 1..Len(r.rows) |-> MaskRow(c, r.rows[k])],
                                  [k \in 1..Len(e.out.rows) |-> MaskRow(d, e.out.rows[k])])
     \* many entities that look all the same: telling them apart would take too long
     /\ finals # {}
     /\ \/ \E x \in new : class(c, x) > 8
        \/ \E v \in finals : works(v)

-----------------------------------------------------------------------------
PermSeqs(n) == {[k \in 1..n |-> p[k]] : p \in Permutations(1..n)}
Rot(n, j) == [k \in 1..n |-> ((k - 1 + j) % n) + 1]
Rev(n) == [k \in 1..n |-> n + 1 - k]
SomePerms(n) == {Rev(n)} \cup {Rot(n, j) : j \in 1..(n - 1)}

\* row k last, the others as they are
MoveLast(n, k) == [j \in 1..n |-> IF j < k THEN j ELSE IF j = n THEN k ELSE j + 1]

(* What an expression reads of the graph: property keys, ":" for labels, "*"  *)
(* for entities as such.  What SET and REMOVE write, likewise.                 *)
RECURSIVE Reads(_)
ReadsAll(es) == UNION {Reads(es[j]) : j \in 1..Len(es)}
Reads(x) ==
  CASE x[1] \in {"lit", "param", "none"} -> {}
    [] x[1] = "var" -> {"*"}
    [] x[1] = "prop" -> {x[3]} \cup (IF x[2][1] = "var" THEN {} ELSE Reads(x[2]))
    [] x[1] \in {"list", "and", "or", "xor"} -> ReadsAll(x[2])
    [] x[1] = "map" -> UNION {Reads(x[2][j][2]) : j \in 1..Len(x[2])}
    [] x[1] = "bin" -> Reads(x[3]) \cup Reads(x[4])
    [] x[1] = "cmp" -> Reads(x[2]) \cup UNION {Reads(x[3][j][2]) : j \in 1..Len(x[3])}
    [] x[1] \in {"not", "neg", "pos", "isnull", "isnotnull"} -> Reads(x[2])
    [] x[1] \in {"in", "idx", "starts", "ends", "contains"} -> Reads(x[2]) \cup Reads(x[3])
    [] x[1] = "slice" -> ReadsAll(<<x[2], x[3], x[4]>>)
    [] x[1] = "call" -> ReadsAll(x[3])
    [] x[1] = "case" -> Reads(x[2]) \cup Reads(x[4]) \cup UNION {Reads(x[3][j][1]) \cup Reads(x[3][j][2]) : j \in 1..Len(x[3])}
    [] x[1] = "haslabels" -> {":"}
ItemReads(it) == CASE it[1] = "prop" -> (IF it[2][1] = "var" THEN {} ELSE Reads(it[2])) \cup (IF Len(it) > 3 THEN Reads(it[4]) ELSE {})
                   [] it[1] \in {"=", "+="} -> Reads(it[3])
                   [] OTHER -> {}
ItemWrites(it) == CASE it[1] = "prop" -> {it[3]} [] it[1] \in {"=", "+="} -> {"*"} [] OTHER -> {":"}
SetItems(q) == Concat([c \in 1..Len(q.singles) |-> Concat([d \in 1..Len(q.singles[c].upd) |->
                 IF q.singles[c].upd[d].k \in {"set", "remove"} THEN q.singles[c].upd[d].items ELSE <<>>])])
\* an item reads what one of them writes
ReadsOwnWrites(q) ==
  LET its == SetItems(q)
      rd == UNION {ItemReads(its[j]) : j \in 1..Len(its)}
      wr == UNION {ItemWrites(its[j]) : j \in 1..Len(its)}
  IN wr # {} /\ (rd \cap wr # {} \/ "*" \in rd \/ ("*" \in wr /\ rd # {}))

\* does the order of rows show in the predicted outcome?
OrderSensitive(e, r, env) ==
  ReadsOwnWrites(e.q) \/
  \E p \in {Rev(r.nread), Rot(r.nread, 1), Rot(r.nread, 2)} \cup {MoveLast(r.nread, k) : k \in 1..(IF r.nread > 40 THEN 40 ELSE r.nread)} :
     LET x == TLCEval(RunQuery(e.q, env, -1, p))
     IN \/ x.k # r.k
        \/ Restrict1(x.g.nodes, DOMAIN graph.nodes) # Restrict1(r.g.nodes, DOMAIN graph.nodes)
        \/ Restrict1(x.g.edges, DOMAIN graph.edges) # Restrict1(r.g.edges, DOMAIN graph.edges)
        \/ Cardinality(DOMAIN x.g.nodes) # Cardinality(DOMAIN r.g.nodes)
        \/ Cardinality(DOMAIN x.g.edges) # Cardinality(DOMAIN r.g.edges)
        \/ \E c \in 1..Len(e.q.singles) : \E d \in 1..Len(e.q.singles[c].upd) :
              e.q.singles[c].upd[d].k = "merge"

\* "ok", "bad" or "open"
ExecVerdict(e) ==
  LET env == EnvOf(graph, cvars, e.par, e.filt)
      r == TLCEval(RunQuery(e.q, env, -1, <<>>))
      p == GraphOf(e.post)
      sane == ~DupIds(e.post) /\ WellFormed(p) /\ ViewsOk(e.views, p)
      upd == IsUpdating(e.q)
  IN IF e.out.k = "panic" THEN "bad"
     \* others evaluated the same parsed query on copies of the graph at the same time
     ELSE IF "others" \in DOMAIN e.out /\ \E j \in 1..Len(e.out.others) :
               \/ e.out.others[j].k = "panic"
               \/ ~upd /\ (e.out.others[j].k # e.out.k \/ e.out.others[j].n # Len(e.out.rows)) THEN "bad"
     ELSE IF ~sane THEN "bad"
     ELSE IF ~upd /\ p # graph THEN "bad"
     ELSE IF r.k = "any" THEN "open"
     ELSE IF r.k = "err"
          THEN (IF e.out.k = "err" /\ e.vars = cvars THEN "ok"
                ELSE IF e.out.k # "err" /\ upd /\ r.nread > 1
                        /\ \E pm \in SomePerms(r.nread) : RunQuery(e.q, env, -1, pm).k # "err" THEN "open" ELSE "bad")
     ELSE IF e.out.k # "ok" THEN
          (IF upd /\ r.nread > 1 /\ \E pm \in SomePerms(r.nread) : RunQuery(e.q, env, -1, pm).k # "ok" THEN "open" ELSE "bad")
     ELSE IF Accepts(r, e) THEN "ok"
     ELSE IF ~upd \/ r.nread < 2 THEN "bad"
     ELSE IF r.nread <= 4
          THEN IF \E pm \in PermSeqs(r.nread) :
                    LET x == TLCEval(RunQuery(e.q, env, -1, pm)) IN x.k = "any" \/ (x.k = "ok" /\ Accepts(x, e))
               THEN "ok" ELSE IF r.wide THEN "open" ELSE "bad"
     ELSE IF \E pm \in SomePerms(r.nread) :
                    LET x == TLCEval(RunQuery(e.q, env, -1, pm)) IN x.k = "any" \/ (x.k = "ok" /\ Accepts(x, e)) THEN "ok"
     ELSE IF OrderSensitive(e, r, env) THEN "open" ELSE "bad"

\* any text: whatever it means, it gives a result or an error, the graph stays
\* one, and what the text has no words for does not happen
Lower(s) == [k \in 1..Len(s) |-> IF s[k] \in 65..90 THEN s[k] + 32 ELSE s[k]]
Says(s, word) == ContainsS(word, Lower(s))
UpdWords == { <<99,114,101,97,116,101>>, <<109,101,114,103,101>>, <<115,101,116>>, <<100,101,108,101,116,101>>,
              <<114,101,109,111,118,101>> }     \* create merge set delete remove
GrowWords == { <<99,114,101,97,116,101>>, <<109,101,114,103,101>> }
AnyVerdict(e) ==
  LET p == GraphOf(e.post)
  IN IF e.out.k = "panic" THEN "bad"
     ELSE IF DupIds(e.post) \/ ~WellFormed(p) \/ ~ViewsOk(e.views, p) THEN "bad"
     ELSE IF p # graph /\ \A w \in UpdWords : ~Says(e.text, w) THEN "bad"
     ELSE IF ~(DOMAIN p.nodes \subseteq DOMAIN graph.nodes /\ DOMAIN p.edges \subseteq DOMAIN graph.edges)
             /\ \A w \in GrowWords : ~Says(e.text, w) THEN "bad"
     ELSE IF e.out.k = "err" /\ e.vars # cvars THEN "bad"
     ELSE IF ~MaybeQuery(e.text) /\ (e.out.k # "err" \/ p # graph) THEN "bad"
     ELSE "ok"

OtherVerdict(e) == IF e.ev \in {"strlit", "numlit", "esc", "parse"} THEN LexVerdict(e)
                   ELSE IF e.ev = "scopes" THEN (IF e.out.k = "panic" THEN "bad" ELSE ScopeVerdict(e)) ELSE ApiVerdict(e, graph)

Verdict(e) == IF e.ev = "exec" THEN ExecVerdict(e)
              ELSE IF e.ev = "any" THEN AnyVerdict(e)
              ELSE IF e.ev \in {"newctx", "reload"} THEN "ok"
              ELSE IF e.ev = "load" THEN (IF GraphOf(e.post) = GraphOf(e.g) /\ e.vars = EmptyFn THEN "ok" ELSE "bad")
              ELSE OtherVerdict(e)

-----------------------------------------------------------------------------
TInit == /\ hist \in 1..Len(T)
         /\ pos = 0
         /\ verdict = "ok"
         /\ graph = GraphOf(T[hist].g0)
         /\ cvars = T[hist].v0

Report(v, e) == IF v = "ok" THEN TRUE ELSE PrintT(<<"VERDICT", v, T[hist].h, pos + 1>>)

TNext == /\ pos < Len(T[hist].ev)
         /\ LET e == T[hist].ev[pos + 1]
                v == Verdict(e)
            IN /\ Report(v, e)
               /\ verdict' = v
               /\ graph' = IF e.ev \in {"exec", "any", "reload", "load"} THEN GraphOf(e.post) ELSE graph
               /\ cvars' = IF e.ev \in {"exec", "any", "newctx", "reload", "load"} THEN e.vars ELSE cvars
         /\ pos' = pos + 1
         /\ hist' = hist

TSpec == TInit /\ [][TNext]_<<hist, pos, graph, cvars, verdict>>
=============================================================================
