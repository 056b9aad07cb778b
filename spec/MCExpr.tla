-------------------------------- MODULE MCExpr -------------------------------
(* Expressions over a small pool of values, exhaustively.  A state is one      *)
(* expression form applied to one choice of operands.  The laws below are      *)
(* checked by TLC on the specification, for every state; and one history per    *)
(* form, holding all its states, is printed to be replayed by the real code:    *)
(* the same parsed expression evaluated with every choice of parameters.        *)
EXTENDS Cypher, Json, IOUtils

CONSTANT Part     \* the property whose forms are explored

I(n) == <<"int", n>>
MaxI == <<"big", FALSE, <<5807, 5477, 368, 3372, 922>>>>
MinI == <<"big", TRUE, <<5808, 5477, 368, 3372, 922>>>>
NearMax == <<"big", FALSE, <<5805, 5477, 368, 3372, 922>>>>
F(m, e) == <<"flt", m, e>>
Inf == <<"fltx", "+Inf">>
NInf == <<"fltx", "-Inf">>
S(x) == StrV(Codes(x))
L(s) == ListV(s)
Dur(a, b, c, d) == <<"dur", a, b, c, d>>
Uml == StrV(<<228, 98>>)       \* non-ASCII, two characters in three bytes
Emo == StrV(<<128512, 97, 128512>>)

A == <<"param", "$a">>
B == <<"param", "$b">>
C == <<"param", "$c">>
None == <<"none">>
Bin(o, x, y) == <<"bin", o, x, y>>
Cmp(o, x, y) == <<"cmp", x, <<<<o, y>>>>>>
Call(f, as) == <<"call", f, as>>
Lit(v) == <<"lit", v>>

Nums == <<I(0), I(1), I(-1), I(2), I(-3), I(7), I(10), F(1, 1), F(-3, 1), F(5, 0), F(0, 0), F(1, 2), MaxI, MinI, Null, Inf>>
Temps == <<<<"date", 0>>, <<"date", 11016>>, <<"date", 19722>>, Dur(1, 0, 0, 0), Dur(0, 1, 0, 0), Dur(-1, 2, -3, 500000000),
           Dur(12, 0, 86400, 0), <<"ltime", 0, 0>>, <<"ltime", 86399, 999999999>>, <<"ldt", 11016, 3600, 1>>, <<"ldt", 19722, 86399, 0>>>>
Tris == <<True, False, Null, I(1), S("x")>>
Strs == <<StrV(<<>>), S("a"), S("ab"), S("ba"), S("abab"), S("A"), S(" a "), StrV(<<9, 97>>), Uml, StrV(<<228>>), Emo, Null>>
Odd == <<True, L(<<>>), L(<<I(1), Null>>), MapV(EmptyFn)>>
Lists == <<L(<<>>), L(<<I(1)>>), L(<<I(1), I(2), I(3)>>), L(<<S("a"), L(<<I(1)>>)>>), L(<<F(1, 0), I(2)>>), L(<<Null, I(2)>>), Null>>
Maps == <<MapV([p |-> I(1)]), MapV([p |-> I(1), q |-> S("a")]), MapV([q |-> Null])>>
NumText == <<S("1"), S("-7"), S("007"), S("1.5"), S("-0.0"), S("1e3"), S(".5"), S("5."), S("abc"), S(""), S(" 1"), S("1x"),
             S("9223372036854775807"), S("9223372036854775808"), S("-9223372036854775808"), S("99999999999999999999"), S("+3"), S("0x10"), S("1e400"), S("Inf")>>

Ops == <<"=", "<>", "<", "<=", ">", ">=">>

\* [e: expression, n: number of operands, p: their pools]
Form(e, ps) == [e |-> e, ps |-> ps]
CmpForms(p, q) == [i \in 1..6 |-> Form(Cmp(Ops[i], A, B), <<p, q>>)]
Forms ==
  CASE Part = "C01" -> [i \in 1..6 |-> Form(Bin(<<"+", "-", "*", "/", "%", "^">>[i], A, B), <<Nums \o <<S("a")>>, Nums \o <<S("b")>>>>)]
                       \o <<Form(<<"neg", A>>, <<Nums \o Temps \o Strs>>), Form(<<"pos", A>>, <<Nums \o Temps \o Strs>>),
                            Form(Bin("+", A, B), <<Strs \o Lists, Strs \o Lists \o <<I(1), F(1, 1)>>>>),
                            Form(Bin("-", Bin("-", A, B), C), <<SubSeq(Nums, 1, 8), SubSeq(Nums, 1, 8), <<I(2), F(1, 1), Null, MinI>>>>),
                            Form(Bin("+", A, Bin("*", B, C)), <<SubSeq(Nums, 1, 8), SubSeq(Nums, 4, 14), <<I(2), F(1, 1), Null, MaxI>>>>),
                            Form(Bin("/", Bin("*", A, B), C), <<SubSeq(Nums, 1, 8), SubSeq(Nums, 4, 14), <<I(2), I(0), F(1, 1), Null, MaxI>>>>),
                            Form(<<"neg", Bin("^", A, B)>>, <<SubSeq(Nums, 1, 8), <<I(0), I(2), I(-1), F(1, 1)>>>>),
                            Form(Bin("^", Bin("^", A, B), C), <<SubSeq(Nums, 1, 7), <<I(0), I(2), I(3)>>, <<I(2), I(3)>>>>)>>
    [] Part = "C02" -> <<Form(<<"and", <<A, B>>>>, <<Tris, Tris>>), Form(<<"or", <<A, B>>>>, <<Tris, Tris>>),
                         Form(<<"xor", <<A, B>>>>, <<Tris, Tris>>), Form(<<"not", A>>, <<Tris>>),
                         Form(<<"and", <<A, B, C>>>>, <<Tris, Tris, Tris>>), Form(<<"or", <<A, B, C>>>>, <<Tris, Tris, Tris>>),
                         Form(<<"xor", <<A, B, C>>>>, <<Tris, Tris, Tris>>),
                         Form(<<"or", <<<<"and", <<A, B>>>>, C>>>>, <<Tris, Tris, Tris>>),
                         Form(<<"or", <<A, <<"and", <<B, C>>>>>>>>, <<Tris, Tris, Tris>>),
                         Form(<<"xor", <<A, <<"and", <<B, C>>>>>>>>, <<Tris, Tris, Tris>>),
                         Form(<<"or", <<A, <<"xor", <<B, C>>>>>>>>, <<Tris, Tris, Tris>>),
                         Form(<<"and", <<<<"or", <<A, B>>>>, <<"not", C>>>>>>, <<Tris, Tris, Tris>>),
                         Form(<<"not", <<"and", <<A, B>>>>>>, <<Tris, Tris>>), Form(<<"not", <<"or", <<A, B>>>>>>, <<Tris, Tris>>),
                         Form(<<"not", <<"not", A>>>>, <<Tris>>),
                         Form(<<"and", <<<<"xor", <<A, B>>>>, <<"xor", <<B, C>>>>>>>>, <<Tris, Tris, Tris>>)>>
    [] Part = "C03" -> CmpForms(Nums, Nums) \o CmpForms(Strs, Strs) \o CmpForms(Temps, Temps)
                       \o CmpForms(<<True, False, Null>> \o Lists \o Maps, <<True, False, Null>> \o Lists \o Maps)
                       \o CmpForms(<<True, I(1), F(1, 1), S("a"), Null, L(<<I(1)>>), Temps[1], Temps[4], Temps[8], Temps[10]>>,
                                   <<True, I(1), F(1, 1), S("a"), Null, L(<<I(1)>>), Temps[1], Temps[4], Temps[8], Temps[10]>>)
                       \o <<Form(<<"cmp", A, <<<<"<", B>>, <<"<=", C>>>>>>, <<SubSeq(Nums, 1, 8), SubSeq(Nums, 4, 13), <<I(2), F(1, 1), Null, S("a")>>>>),
                            Form(<<"cmp", A, <<<<"=", B>>, <<"<>", C>>>>>>, <<SubSeq(Nums, 1, 8), SubSeq(Nums, 4, 13), <<I(2), F(1, 1), Null, S("a")>>>>)>>
    [] Part = "C04" -> <<Form(<<"in", A, B>>, <<Nums \o Strs \o Odd, Lists>>),
                         Form(<<"idx", A, B>>, <<Lists \o Maps \o <<S("ab"), I(1)>>, <<I(0), I(1), I(2), I(3), I(-1), I(-3), I(-4), MaxI, MinI, Null, F(1, 0), S("p"), S("q"), S("z")>>>>),
                         Form(<<"slice", A, B, C>>, <<Lists \o <<S("ab")>>, <<I(0), I(1), I(3), I(4), I(-1), I(-4), MaxI, MinI, Null, F(1, 0)>>, <<I(0), I(2), I(3), I(9), I(-1), I(-2), I(-9), MaxI, MinI, Null, S("a")>>>>),
                         Form(<<"slice", A, B, None>>, <<Lists, <<I(0), I(1), I(3), I(4), I(-1), I(-4), MaxI, MinI, Null, F(1, 0)>>>>),
                         Form(<<"slice", A, None, B>>, <<Lists, <<I(0), I(1), I(3), I(4), I(-1), I(-4), MaxI, MinI, Null, F(1, 0)>>>>),
                         Form(Call("range", <<A, B>>), <<<<I(0), I(1), I(5), I(-3), MaxI, Null, F(1, 0)>>, <<I(0), I(1), I(5), I(-3), MinI, Null, S("a")>>>>),
                         Form(Call("range", <<A, B>>), <<<<MaxI, NearMax>>, <<MaxI, NearMax>>>>),
                         Form(Call("range", <<A, B, C>>), <<<<I(0), I(1), I(5), I(-3)>>, <<I(0), I(1), I(5), I(-3), I(6)>>, <<I(1), I(2), I(-1), I(-4), I(0), Null, MaxI, MinI>>>>),
                         Form(Call("range", <<A, B, C>>), <<<<MaxI, NearMax>>, <<MaxI, NearMax>>, <<I(1), I(2), I(3), I(-1), I(-2), MaxI, MinI>>>>),
                         Form(Call("range", <<A, B, C>>), <<<<I(0), MaxI>>, <<MinI, MaxI, I(0)>>, <<MaxI, MinI>>>>),
                         Form(Call("size", <<A>>), <<Lists \o Strs \o Maps \o <<I(1)>>>>),
                         Form(Bin("+", A, B), <<Lists, Lists \o <<I(1), S("a")>>>>),
                         Form(<<"list", <<A, B>>>>, <<Lists, SubSeq(Nums, 1, 4)>>),
                         Form(<<"map", <<<<"p", A>>, <<"q", B>>, <<"p", C>>>>>>, <<SubSeq(Lists, 1, 3), SubSeq(Nums, 1, 3), <<I(5), Null>>>>),
                         Form(<<"prop", A, "p">>, <<Maps \o <<Null, I(1), S("a"), L(<<>>)>>>>),
                         Form(<<"isnull", <<"idx", A, B>>>>, <<Lists, <<I(0), I(1), I(5), I(-1)>>>>)>>
    [] Part = "C05" -> <<Form(<<"starts", A, B>>, <<Strs \o Odd, Strs \o <<I(1)>>>>), Form(<<"ends", A, B>>, <<Strs \o Odd, Strs \o <<I(1)>>>>),
                         Form(<<"contains", A, B>>, <<Strs \o Odd, Strs \o <<I(1)>>>>),
                         Form(Call("left", <<A, B>>), <<Strs \o Odd, <<I(0), I(1), I(2), I(9), I(-1), MaxI, Null, F(1, 0)>>>>),
                         Form(Call("right", <<A, B>>), <<Strs \o Odd, <<I(0), I(1), I(2), I(9), I(-1), MaxI, Null, F(1, 0)>>>>),
                         Form(Call("substring", <<A, B>>), <<Strs \o Odd, <<I(0), I(1), I(2), I(9), I(-1), MaxI, MinI, Null, F(1, 0)>>>>),
                         Form(Call("substring", <<A, B, C>>), <<Strs, <<I(0), I(1), I(2), I(9), I(-1), MaxI, Null>>, <<I(0), I(1), I(2), I(9), I(-1), MaxI, Null>>>>),
                         Form(Call("split", <<A, B>>), <<Strs \o Odd, Strs>>),
                         Form(Call("size", <<A>>), <<Strs>>), Form(Call("trim", <<A>>), <<Strs \o Odd>>),
                         Form(Call("ltrim", <<A>>), <<Strs \o Odd>>), Form(Call("rtrim", <<A>>), <<Strs \o Odd>>)>>
    [] Part = "C06" -> [i \in 1..4 |-> Form(Call(<<"toInteger", "toIntegerOrNull", "toFloat", "toFloatOrNull">>[i], <<A>>),
                                            <<NumText \o Nums \o Odd \o Temps \o <<F(15, 1), F(-15, 1), F(99, 2), NInf>>>>)]
                       \o [i \in 1..3 |-> Form(Call(<<"size", "type", "labels">>[i], <<A>>), <<Nums \o Odd \o Strs>>)]
                       \o <<Form(Call("toInteger", <<Call("toFloat", <<A>>)>>), <<NumText \o Nums>>),
                            Form(Bin("+", Call("toInteger", <<A>>), Call("toFloat", <<B>>)), <<NumText, NumText>>),
                            Form(Call("toInteger", <<A, B>>), <<<<I(1)>>, <<I(1)>>>>), Form(Call("nosuch", <<A>>), <<<<I(1)>>>>)>>
    [] Part = "C07" -> LET P == <<I(1), I(2), F(1, 0), S("a"), Null, True, L(<<I(1)>>)>>
                       IN <<Form(<<"case", A, <<<<B, Lit(S("x"))>>, <<C, Lit(S("y"))>>>>, Lit(S("z"))>>, <<P, P, P>>),
                            Form(<<"case", A, <<<<B, Lit(S("x"))>>, <<C, Lit(S("y"))>>>>, None>>, <<P, P, P>>),
                            Form(<<"case", None, <<<<A, Lit(S("x"))>>, <<B, Lit(S("y"))>>>>, Lit(S("z"))>>, <<Tris, Tris>>),
                            Form(<<"case", None, <<<<A, Lit(S("x"))>>, <<B, Lit(S("y"))>>>>, None>>, <<Tris, Tris>>),
                            Form(<<"case", None, <<<<A, Bin("/", Lit(I(1)), B)>>>>, Bin("/", Lit(I(1)), C)>>, <<Tris, <<I(0), I(1), Null>>, <<I(0), I(1), Null>>>>),
                            Form(<<"case", A, <<<<Lit(I(1)), Bin("/", Lit(I(1)), B)>>, <<Bin("/", Lit(I(2)), C), Lit(S("y"))>>>>, Lit(S("z"))>>, <<P, <<I(0), I(1)>>, <<I(0), I(1), Null>>>>)>>
    [] Part = "C08" -> [i \in 1..4 |-> Form(Bin(<<"+", "-", "*", "/">>[i], A, B), <<Temps \o <<I(2), Null>>, Temps \o <<I(2), I(0), F(5, 1), Null>>>>)]
                       \o CmpForms(Temps, Temps)
                       \o <<Form(Call("date", <<A>>), <<<<S("2000-02-29"), S("1999-02-29"), S("1900-02-29"), S("0001-01-01"), S("2024-12-31"), S("2024-13-01"), S("2024-00-10"),
                                                        S("2024-1-1"), S(""), S("x"), Null, I(1), True>>>>),
                            Form(Call("date", <<<<"map", <<<<"year", A>>, <<"month", B>>, <<"day", C>>>>>>>>), <<<<I(1999), I(2000), I(1900), Null>>, <<I(1), I(2), I(12), I(13), I(0)>>, <<I(1), I(28), I(29), I(30), I(31), I(32), I(0), S("a")>>>>),
                            Form(Bin("+", Bin("-", A, B), B), <<Temps, <<Dur(1, 0, 0, 0), Dur(0, 1, 0, 0), Dur(0, 0, 1, 1), Dur(-1, 2, -3, 500000000)>>>>),
                            Form(Bin("-", Bin("+", A, B), C), <<Temps, Temps, <<Dur(0, 1, 0, 0), Dur(0, 0, 0, 1)>>>>)>>

-----------------------------------------------------------------------------
VARIABLES form, ops
NoGraph == [nodes |-> EmptyFn, edges |-> EmptyFn]
Names == <<"$a", "$b", "$c">>
ParOf(vs) == [x \in {Names[i] : i \in 1..Len(vs)} |-> vs[CHOOSE i \in 1..3 : Names[i] = x]]
Env(vs) == EnvOf(NoGraph, EmptyFn, ParOf(vs), "none")
Value(e, vs) == Ev(e, Env(vs))

Picks(ps) == CASE Len(ps) = 1 -> [i \in 1..Len(ps[1]) |-> <<ps[1][i]>>]
                 [] Len(ps) = 2 -> Concat([i \in 1..Len(ps[1]) |-> [j \in 1..Len(ps[2]) |-> <<ps[1][i], ps[2][j]>>]])
                 [] Len(ps) = 3 -> Concat([i \in 1..Len(ps[1]) |-> Concat([j \in 1..Len(ps[2]) |->
                                     [k \in 1..Len(ps[3]) |-> <<ps[1][i], ps[2][j], ps[3][k]>>]])])

Init == /\ \E f \in 1..Len(Forms) : \E c \in Range1(Picks(Forms[f].ps)) : form = Forms[f].e /\ ops = c
        /\ graph = NoGraph /\ cvars = EmptyFn
Next == FALSE /\ UNCHANGED <<form, ops, graph, cvars>>
Spec == Init /\ [][Next]_<<form, ops, graph, cvars>>

-----------------------------------------------------------------------------
(* Laws                                                                        *)
a1 == ops[1]
b1 == IF Len(ops) > 1 THEN ops[2] ELSE Null
c1 == IF Len(ops) > 2 THEN ops[3] ELSE Null
V(e) == Value(e, ops)
Plain(v) == ~IsErr(v) /\ ~IsOpen(v)
Agree(e1, e2) == LET v == V(e1) w == V(e2) IN Plain(v) /\ Plain(w) => Same(v, w)

\* every outcome is a value, an error, or left open
Total == V(form)[1] \in {"null", "bool", "int", "big", "flt", "dbl", "fltx", "str", "list", "map", "date", "ltime", "ldt",
                         "dur", "durx", "node", "rel", "err", "any"}

Arith ==
  form[1] = "bin" /\ Len(ops) = 2 /\ form[3] = A /\ form[4] = B =>
     LET o == form[2] num == IsNum(a1) /\ IsNum(b1) IN
     /\ o \in {"+", "*"} /\ num => Agree(form, Bin(o, B, A))
     /\ (IsNull(a1) \/ IsNull(b1)) => V(form)[1] \in {"null", "any", "err"}
     /\ o = "-" /\ IsInt(a1) /\ IsInt(b1) => V(Bin("+", form, B)) = a1
     /\ o = "-" /\ IsInt(a1) /\ IsInt(b1) => V(<<"neg", form>>) = V(Bin("-", B, A))
     \* a = (a/b)*b + a%b, and the remainder has the sign of a
     /\ o = "/" /\ IsInt(a1) /\ IsInt(b1) /\ ~IsZero(b1) => V(Bin("+", Bin("*", form, B), Bin("%", A, B))) = a1
     /\ o = "%" /\ IsInt(a1) /\ IsInt(b1) /\ ~IsZero(b1) => (IsZero(V(form)) \/ Neg(V(form)) = Neg(a1))
     /\ o \in {"/", "%"} /\ IsInt(a1) /\ IsInt(b1) /\ IsZero(b1) => IsErr(V(form))
     /\ o = "+" /\ IsStr(a1) /\ IsStr(b1) => Len(V(form)[2]) = Len(a1[2]) + Len(b1[2])
     /\ o = "+" /\ IsList(a1) /\ IsList(b1) => Len(V(form)[2]) = Len(a1[2]) + Len(b1[2])

Tri2(v) == v[1] = "bool" \/ v[1] = "null"
Logic ==
  /\ form = <<"and", <<A, B>>>> /\ Tri2(a1) /\ Tri2(b1) =>
       /\ V(form) = V(<<"and", <<B, A>>>>)
       /\ V(<<"not", form>>) = V(<<"or", <<<<"not", A>>, <<"not", B>>>>>>)
  /\ form = <<"or", <<A, B>>>> /\ Tri2(a1) /\ Tri2(b1) => V(form) = V(<<"or", <<B, A>>>>)
  /\ form = <<"xor", <<A, B>>>> /\ Tri2(a1) /\ Tri2(b1) =>
       V(form) = V(<<"or", <<<<"and", <<A, <<"not", B>>>>>>, <<"and", <<<<"not", A>>, B>>>>>>>>)
  /\ form[1] = "and" /\ Len(form[2]) = 3 /\ form[2] = <<A, B, C>> /\ Tri2(a1) /\ Tri2(b1) /\ Tri2(c1) =>
       V(form) = V(<<"and", <<A, <<"and", <<B, C>>>>>>>>)
  /\ form[1] = "or" /\ Len(form[2]) = 3 /\ form[2] = <<A, B, C>> /\ Tri2(a1) /\ Tri2(b1) /\ Tri2(c1) =>
       V(<<"and", <<<<"or", <<A, B>>>>, C>>>>) = V(<<"or", <<<<"and", <<A, C>>>>, <<"and", <<B, C>>>>>>>>)
  /\ form = <<"not", <<"not", A>>>> /\ Tri2(a1) => V(form) = a1

Order ==
  form[1] = "cmp" /\ Len(form[3]) = 1 /\ Plain(V(form)) =>
     LET o == form[3][1][1]
         is(p) == V(Cmp(p, A, B))
     IN /\ (IsNull(a1) \/ IsNull(b1)) = IsNull(V(form))
        /\ ~IsNull(V(form)) =>
             /\ o = "<" => is("<") = V(Cmp(">", B, A)) /\ is("<") = V(<<"not", Cmp(">=", A, B)>>)
             /\ o = "<=" => is("<=") = V(<<"or", <<Cmp("<", A, B), Cmp("=", A, B)>>>>)
             /\ o = "=" => is("=") = V(Cmp("=", B, A)) /\ is("=") = V(<<"not", Cmp("<>", A, B)>>)
             /\ o \in {"<", "<=", ">", ">="} =>
                  Cardinality({p \in {"<", "=", ">"} : is(p) = True}) = 1
             /\ o = "=" /\ Same(a1, b1) => is("=") = True

Trans == form[1] = "cmp" /\ Len(form[3]) = 2 /\ form[3][1][1] = "<" /\ V(form) = True => V(Cmp("<", A, C)) = True

Seqs ==
  /\ form = <<"idx", A, B>> /\ IsList(a1) /\ b1[1] = "int" =>
       LET n == Len(a1[2]) IN V(form) = IF b1[2] \in 0..(n - 1) THEN a1[2][b1[2] + 1] ELSE IF b1[2] \in (-n)..(-1) THEN a1[2][n + b1[2] + 1] ELSE Null
  /\ form[1] = "slice" /\ Len(ops) = 3 /\ IsList(a1) /\ IsList(V(form)) => Len(V(form)[2]) <= Len(a1[2])
  /\ form = <<"slice", A, B, None>> /\ IsList(a1) /\ b1[1] = "int" => V(Bin("+", <<"slice", A, None, B>>, form)) = a1
  /\ form = <<"in", A, B>> /\ IsList(b1) /\ b1[2] = <<>> /\ ~IsNull(a1) => V(form) = False
  /\ form = Call("range", <<A, B>>) /\ a1[1] = "int" /\ b1[1] = "int" =>
       V(Call("size", <<form>>)) = <<"int", Max2(0, b1[2] - a1[2] + 1)>>

Texts ==
  /\ form = Call("left", <<A, B>>) /\ IsStr(a1) /\ b1[1] = "int" /\ b1[2] >= 0 =>
       V(Bin("+", form, Call("substring", <<A, B>>))) = a1
  /\ form = Call("left", <<A, B>>) /\ IsStr(a1) /\ b1[1] = "int" /\ b1[2] >= 0 => V(<<"starts", A, form>>) = True
  /\ form = Call("right", <<A, B>>) /\ IsStr(a1) /\ b1[1] = "int" /\ b1[2] >= 0 => V(<<"ends", A, form>>) = True
  /\ form = Call("trim", <<A>>) /\ IsStr(a1) => V(form) = V(Call("ltrim", <<Call("rtrim", <<A>>)>>)) /\ V(Call("trim", <<form>>)) = V(form)
  /\ form[1] \in {"starts", "ends"} /\ V(form) = True => V(<<"contains", A, B>>) = True
  /\ form = <<"contains", A, B>> /\ IsStr(a1) /\ IsStr(b1) /\ b1[2] # <<>> =>
       (V(form) = True) = (Len(V(Call("split", <<A, B>>))[2]) > 1)

Conv ==
  /\ form = Call("toInteger", <<A>>) =>
       LET v == V(form) w == V(Call("toIntegerOrNull", <<A>>))
       IN IF IsErr(v) THEN IsNull(w) ELSE v = w
  /\ form = Call("toFloat", <<A>>) =>
       LET v == V(form) w == V(Call("toFloatOrNull", <<A>>))
       IN IF IsErr(v) THEN IsNull(w) ELSE v = w
  /\ form = Call("toInteger", <<A>>) /\ IsInt(a1) => V(form) = a1

Times ==
  /\ form[1] = "bin" /\ form[2] = "-" /\ Len(ops) = 2 /\ form[3] = A /\ IsDur(a1) /\ IsDur(b1) => V(Bin("+", form, B)) = a1
  /\ form[1] = "bin" /\ form[2] = "+" /\ Len(ops) = 2 /\ form[3] = A /\ IsDur(a1) /\ IsDur(b1) => V(form) = V(Bin("+", B, A))
  /\ form = Call("date", <<<<"map", <<<<"year", A>>, <<"month", B>>, <<"day", C>>>>>>>>) /\ V(form)[1] = "date" =>
       b1[1] = "int" /\ c1[1] = "int"

Laws == Total /\ Arith /\ Logic /\ Order /\ Trans /\ Seqs /\ Texts /\ Conv /\ Times

-----------------------------------------------------------------------------
(* The histories                                                               *)
RetQ(e) == [singles |-> <<[read |-> <<>>, upd |-> <<>>, hasret |-> TRUE,
                           ret |-> [distinct |-> FALSE, all |-> FALSE, items |-> <<<<e, "r">>>>, skip |-> None, limit |-> None]]>>,
            alls |-> <<>>]
Event(f, c) == [ev |-> "exec", q |-> RetQ(f.e), par |-> ParOf(c), filt |-> "none", cache |-> "f"]
Case(f) == [g0 |-> [nodes |-> <<>>, edges |-> <<>>], v0 |-> EmptyFn,
            ev |-> LET cs == Picks(f.ps) IN [k \in 1..Len(cs) |-> Event(f, cs[k])]]
ASSUME \A k \in 1..Len(Forms) : PrintT("CASE " \o ToJson(Case(Forms[k])))
=============================================================================
