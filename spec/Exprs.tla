-------------------------------- MODULE Exprs --------------------------------
(* The value of an expression.  Ev(e, env) is a value, Err, or Open.           *)
(* env = [row |-> name -> value, ctx |-> name -> value, par |-> name -> value,*)
(*        g |-> graph]; a graph is [nodes |-> id -> [labels, props],          *)
(*        edges |-> id -> [from, to, label, props]].                          *)
EXTENDS Temporal

\* ASCII names to and from code points
Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharAt == [i \in 1..95 |-> SubSeq(Chars, i, i)]
CodeOf == [c \in {CharAt[i] : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : CharAt[i] = c]
Codes(name) == [i \in 1..Len(name) |-> CodeOf[SubSeq(name, i, i)]]
Known(name) == \A i \in 1..Len(name) : SubSeq(name, i, i) \in DOMAIN CodeOf
Ascii(s) == \A i \in 1..Len(s) : s[i] \in 32..126
NameOf(s) == FoldLeft(LAMBDA a, c : a \o CharAt[c - 31], "", s)

-----------------------------------------------------------------------------
(* Arithmetic                                                                *)
IllNull(v) == IF IsNum(v) \/ IsDur(v) \/ IsNull(v) THEN Null ELSE Open

Add(a, b) ==
  IF IsNull(a) THEN (IF b[1] = "bool" \/ b[1] = "map" THEN Open ELSE Null)
  ELSE IF IsNull(b) THEN (IF a[1] = "bool" \/ a[1] = "map" THEN Open ELSE Null)
  ELSE IF IsInt(a) /\ IsInt(b) THEN IntAdd(a, b)
  ELSE IF IsNum(a) /\ IsNum(b)
       THEN LET x == ToFlt(a)
                y == ToFlt(b)
            IN IF IsOpen(x) \/ IsOpen(y) THEN Open ELSE FAdd(x, y)
  ELSE CASE IsStr(a) /\ IsStr(b) -> StrV(a[2] \o b[2])
         [] IsList(a) /\ IsList(b) -> ListV(a[2] \o b[2])
         [] IsDur(a) /\ IsDur(b) -> DurAdd(a, b, 1)
         [] a[1] = "date" /\ IsDur(b) -> DateAdd(a, b, 1)
         [] a[1] = "ltime" /\ IsDur(b) -> TimeAdd(a, b, 1)
         [] a[1] = "ldt" /\ IsDur(b) -> LdtAdd(a, b, 1)
         [] IsDur(a) /\ b[1] = "date" -> DateAdd(b, a, 1)
         [] IsDur(a) /\ b[1] = "ltime" -> TimeAdd(b, a, 1)
         [] IsDur(a) /\ b[1] = "ldt" -> LdtAdd(b, a, 1)
         \* list + element is not supported here: reported, not guessed
         [] OTHER -> Err

Sub(a, b) ==
  IF IsNull(a) THEN (IF IllNull(b) = Open /\ b[1] \notin {"date", "ltime", "ldt"} THEN Open ELSE Null)
  ELSE IF IsNull(b) THEN (IF IllNull(a) = Open /\ a[1] \notin {"date", "ltime", "ldt"} THEN Open ELSE Null)
  ELSE IF IsInt(a) /\ IsInt(b) THEN IntSub(a, b)
  ELSE IF IsNum(a) /\ IsNum(b)
       THEN LET x == ToFlt(a)
                y == ToFlt(b)
            IN IF IsOpen(x) \/ IsOpen(y) THEN Open ELSE FSub(x, y)
  ELSE CASE IsDur(a) /\ IsDur(b) -> DurAdd(a, b, -1)
         [] a[1] = "date" /\ IsDur(b) -> DateAdd(a, b, -1)
         [] a[1] = "ltime" /\ IsDur(b) -> TimeAdd(a, b, -1)
         [] a[1] = "ldt" /\ IsDur(b) -> LdtAdd(a, b, -1)
         [] OTHER -> Err

FloatOp(op, a, b) ==
  LET x == ToFlt(a)
      y == ToFlt(b)
  IN IF op # "*" /\ b = FZero THEN Err
     ELSE IF op # "*" /\ IsZero(b) THEN Err
     ELSE IF IsOpen(x) \/ IsOpen(y) THEN Open
     ELSE CASE op = "*" -> FMul(x, y)
            [] op = "/" -> FDiv(x, y)
            [] OTHER    -> FMod(x, y)

Mul(op, a, b) ==
  IF IsNull(a) THEN IllNull(b)
  ELSE IF IsNull(b) THEN IllNull(a)
  ELSE IF IsInt(a) /\ IsInt(b)
       THEN IF op = "*" THEN IntMul(a, b)
            ELSE IF IsZero(b) THEN Err
            ELSE IF op = "/" THEN IntDiv(a, b) ELSE IntMod(a, b)
  ELSE IF IsNum(a) /\ IsNum(b) THEN FloatOp(op, a, b)
  ELSE IF IsDur(a) /\ IsNum(b) /\ op # "%"
       THEN IF op = "*" THEN (CASE IsInt(b) -> DurMulInt(a, b)
                                [] IsFlt(b) -> DurMulFlt(a, b)
                                [] OTHER -> Open)
            ELSE IF IsZero(b) \/ b = FZero THEN Err
            ELSE (CASE IsInt(b) -> DurDivInt(a, b)
                    [] IsFlt(b) -> DurDivFlt(a, b)
                    [] OTHER -> Open)
  ELSE IF IsNum(a) /\ IsDur(b) /\ op = "*" THEN
       (CASE IsInt(a) -> DurMulInt(b, a)
          [] IsFlt(a) -> DurMulFlt(b, a)
          [] OTHER -> Open)
  ELSE Err

Power(a, b) ==
  IF IsNull(a) THEN (IF IsNum(b) \/ IsNull(b) THEN Null ELSE Open)
  ELSE IF IsNull(b) THEN (IF IsNum(a) THEN Null ELSE Open)
  ELSE IF IsNum(a) /\ IsNum(b)
       THEN LET x == ToFlt(a)
                y == ToFlt(b)
            IN IF IsOpen(x) \/ IsOpen(y) THEN Open ELSE FPow(x, y)
  ELSE Err

Negate(a) == IF IsNull(a) THEN Null
             ELSE IF IsInt(a) THEN IntNeg(a)
             ELSE IF IsFlt(a) THEN FNeg(a)
             ELSE IF a[1] = "fltx" THEN Open
             ELSE Err

BinOp(op, a, b) == CASE op = "+" -> Add(a, b)
                     [] op = "-" -> Sub(a, b)
                     [] op = "^" -> Power(a, b)
                     [] OTHER -> Mul(op, a, b)

-----------------------------------------------------------------------------
(* Comparison and three-valued logic                                          *)
CmpOp(op, a, b) ==
  IF IsNull(a) \/ IsNull(b) THEN Null
  ELSE LET c == PCmp(a, b)
       IN IF c = 2 THEN Err
          ELSE IF c = 3 THEN Open
          ELSE BoolV(CASE op = "=" -> c = 0
                       [] op = "<>" -> c # 0
                       [] op = "<" -> c < 0
                       [] op = "<=" -> c <= 0
                       [] op = ">" -> c > 0
                       [] op = ">=" -> c >= 0)

And2(x, y) == IF x = False \/ y = False THEN False
              ELSE IF IsNull(x) \/ IsNull(y) THEN Null ELSE True
Or2(x, y)  == IF x = True \/ y = True THEN True
              ELSE IF IsNull(x) \/ IsNull(y) THEN Null ELSE False
Xor2(x, y) == IF IsNull(x) \/ IsNull(y) THEN Null ELSE BoolV(x # y)
Not1(x)    == IF IsNull(x) THEN Null ELSE IF IsBool(x) THEN BoolV(~x[2]) ELSE Err

Tri(v) == IsNull(v) \/ IsBool(v)

\* Fold a connective over operand values; 'live' are the accumulated results
\* after which a faulty operand must be reported (otherwise it may be skipped).
LogicFold(Op(_, _), live, vs) ==
  LET one(acc, v) ==
        IF IsErr(acc) \/ IsOpen(acc) THEN acc
        ELSE IF IsOpen(v) THEN Open
        ELSE IF ~Tri(v) THEN (IF acc \in live THEN Err ELSE Open)
        ELSE Op(acc, v)
  IN IF ~Tri(vs[1]) THEN (IF IsOpen(vs[1]) \/ \E i \in 2..Len(vs) : IsNull(vs[i]) \/ IsOpen(vs[i]) THEN Open ELSE Err)
     ELSE FoldLeft(one, vs[1], Tail(vs))

\* a op1 b op2 c ... : the conjunction of the adjacent comparisons
ChainCmp(first, ops, vs) ==
  LET all == <<first>> \o vs
      step(acc, i) ==
        IF IsErr(acc) \/ IsOpen(acc) THEN acc
        ELSE IF IsErr(all[i + 1])
             THEN (IF acc = True /\ ~IsNull(all[i]) THEN Err ELSE Open)
        ELSE IF IsOpen(all[i + 1]) THEN Open
        ELSE LET p == CmpOp(ops[i], all[i], all[i + 1])
             IN IF IsOpen(p) THEN Open
                ELSE IF IsErr(p) THEN (IF acc = True THEN Err ELSE Open)
                ELSE And2(acc, p)
  IN IF IsErr(first) \/ IsOpen(first) THEN first
     ELSE FoldLeft(step, True, [i \in 1..Len(ops) |-> i])

(* The equality used by IN and CASE: 0 equal, 1 not equal (values of different *)
(* types are not), 3 open (NaN, and lists and maps holding nulls).             *)
RECURSIVE HoldsNull(_)
HoldsNull(v) == CASE IsList(v) -> \E i \in 1..Len(v[2]) : HoldsNull(v[2][i])
                  [] IsMap(v) -> \E k \in DOMAIN v[2] : HoldsNull(v[2][k])
                  [] v[1] = "fltx" -> IsNaN(v)
                  [] OTHER -> IsNull(v)
EqVal(x, y) == IF HoldsNull(x) /\ HoldsNull(y) THEN 3
               ELSE IF (HoldsNull(x) \/ HoldsNull(y)) /\ x[1] = y[1] THEN 3
               ELSE IF Same(x, y) THEN 0 ELSE 1

InList(x, l) ==
  IF IsNull(l) THEN Null
  ELSE IF ~IsList(l) THEN Err
  ELSE IF l[2] = <<>> THEN False
  ELSE IF IsNull(x) THEN Null
  ELSE LET step(acc, y) ==
             IF acc \in {True, Open} THEN acc
             ELSE IF IsNull(y) THEN Null
             ELSE LET c == EqVal(x, y)
                  IN IF c = 0 THEN True ELSE IF c = 3 THEN Open ELSE acc
       IN FoldLeft(step, False, l[2])

-----------------------------------------------------------------------------
(* Lists and maps                                                            *)
IndexV(b, i) ==
  CASE IsNull(b) -> (IF IsNull(i) \/ i[1] = "int" \/ IsStr(i) THEN Null ELSE Open)
    [] IsList(b) -> (IF IsNull(i) \/ i[1] = "big" THEN Null
                     ELSE IF i[1] # "int" THEN Err
                     ELSE LET p == IF i[2] < 0 THEN Len(b[2]) + i[2] ELSE i[2]
                          IN IF p < 0 \/ p >= Len(b[2]) THEN Null ELSE b[2][p + 1])
    [] IsMap(b)  -> (IF IsNull(i) THEN Null
                     ELSE IF ~IsStr(i) THEN Err
                     ELSE IF ~Ascii(i[2]) THEN Open
                     ELSE LET k == NameOf(i[2]) IN IF k \in DOMAIN b[2] THEN b[2][k] ELSE Null)
    [] OTHER     -> Err

BoundOk(v) == IsNull(v) \/ IsInt(v)
\* v: bound or <<"none">>; the effective 0-based position
SlicePos(v, dflt, n) ==
  IF v[1] = "none" THEN dflt
  ELSE IF v[1] = "big" THEN (IF Neg(v) THEN 0 ELSE n)
  ELSE LET p == IF v[2] < 0 THEN v[2] + n ELSE v[2]
       IN IF p < 0 THEN 0 ELSE IF p > n THEN n ELSE p
SliceV(b, from, to) ==
  LET bad(v) == v[1] # "none" /\ ~BoundOk(v)
  IN IF IsNull(b) THEN (IF bad(from) \/ bad(to) THEN Open ELSE Null)
     ELSE IF ~IsList(b) THEN Err
     ELSE IF bad(from) /\ bad(to) THEN Err
     ELSE IF bad(from) THEN (IF IsNull(to) THEN Open ELSE Err)
     ELSE IF bad(to) THEN (IF IsNull(from) THEN Open ELSE Err)
     ELSE IF IsNull(from) \/ IsNull(to) THEN Null
     ELSE LET n == Len(b[2])
          IN ListV(Slice0(b[2], SlicePos(from, 0, n), SlicePos(to, n, n)))

EdgeProp(r, k, g) == IF k \in DOMAIN g.edges[r].props THEN g.edges[r].props[k] ELSE Null
PropV(b, k, g) ==
  CASE IsNull(b) -> Null
    [] b[1] = "node" -> (IF b[2] \notin DOMAIN g.nodes THEN Open
                         ELSE IF k \in DOMAIN g.nodes[b[2]].props THEN g.nodes[b[2]].props[k] ELSE Null)
    [] b[1] = "rel" -> (IF Len(b[2]) # 1 THEN Err
                        ELSE IF b[2][1] \notin DOMAIN g.edges THEN Open
                        ELSE EdgeProp(b[2][1], k, g))
    [] IsMap(b) -> (IF k \in DOMAIN b[2] THEN b[2][k] ELSE Null)
    [] OTHER -> Err

StrOp(op, a, b) ==
  IF IsNull(a) THEN (IF IsNull(b) \/ IsStr(b) THEN Null ELSE Open)
  ELSE IF IsNull(b) THEN (IF IsStr(a) THEN Null ELSE Open)
  ELSE IF ~IsStr(a) \/ ~IsStr(b) THEN Err
  ELSE BoolV(CASE op = "starts" -> IsPrefixS(b[2], a[2])
               [] op = "ends" -> IsSuffixS(b[2], a[2])
               [] OTHER -> ContainsS(b[2], a[2]))

-----------------------------------------------------------------------------
(* Functions                                                                 *)

StrLess(a, b) == SeqCmp(a, b) < 0
LabelList(S) == LET cs == {Codes(l) : l \in S}
                IN MapSeq(StrV, SetToSortSeq(cs, StrLess))

RangeV(a, b, s) ==
  IF ~IsInt(a) \/ ~IsInt(b) \/ ~IsInt(s)
  THEN (IF IsNull(a) \/ IsNull(b) \/ IsNull(s) THEN Open ELSE Err)
  ELSE IF IsZero(s) THEN Err
  ELSE LET up == ~Neg(s)
           c == IntCmp(a, b)
       IN IF (up /\ c > 0) \/ (~up /\ c < 0) THEN ListV(<<>>)
          ELSE LET d == BigAddExact(Neg(b), Mag(b), ~Neg(a), Mag(a)).mag
                   n == MagDivMod(d, Mag(s)).q
               IN IF ~MagSmall(n) THEN Open
                  ELSE IF MagToInt(n) > 200 THEN Open
                  ELSE ListV(FoldLeft(LAMBDA acc, i : Append(acc, IntAdd(acc[Len(acc)], s)),
                                      <<a>>, [i \in 1..MagToInt(n) |-> i]))

\* no value: an error, or null for the ...OrNull functions
NoVal(orNull) == IF orNull THEN Null ELSE Err
FltToInt(f, orNull) == IF f[1] = "fltx" THEN NoVal(orNull)
                       ELSE LET t == FTrunc(f) IN IF IsOpen(t) THEN NoVal(orNull) ELSE t
ToIntegerV(v, orNull) ==
  CASE IsNull(v) -> Null
    [] IsInt(v) -> v
    [] IsFltAny(v) -> FltToInt(v, orNull)
    [] IsBool(v) -> <<"int", IF v[2] THEN 1 ELSE 0>>
    [] IsStr(v) -> (LET p == ParseIntS(v[2])
                        f == ParseFloatS(v[2])
                    IN IF ~IsNull(p) THEN p
                       ELSE IF SignedDigits(v[2]) THEN NoVal(orNull)
                       ELSE IF IsOpen(f) THEN Open
                       ELSE IF IsNull(f) THEN NoVal(orNull)
                       ELSE FltToInt(f, orNull))
    [] OTHER -> NoVal(orNull)

ToFloatV(v, orNull) ==
  CASE IsNull(v) -> Null
    [] IsInt(v) -> ToFlt(v)
    [] IsFltAny(v) -> v
    [] IsStr(v) -> (LET p == ParseFloatS(v[2])
                    IN IF IsNull(p) THEN (IF orNull THEN Null ELSE Err) ELSE p)
    [] OTHER -> (IF orNull THEN Null ELSE Err)

\* functions on a string and integers: null in any argument gives null
StrArgs(args, F(_, _)) ==
  LET bad(i) == IF i = 1 THEN ~IsStr(args[i]) ELSE ~IsInt(args[i])
      anyNull == \E i \in 1..Len(args) : IsNull(args[i])
      anyBad == \E i \in 1..Len(args) : ~IsNull(args[i]) /\ bad(i)
  IN IF anyNull THEN (IF anyBad THEN Open ELSE Null)
     ELSE IF anyBad THEN Err
     ELSE IF \E i \in 2..Len(args) : Neg(args[i]) THEN Err
     ELSE F(args[1][2], [i \in 1..(Len(args) - 1) |-> IF args[i + 1][1] = "big" THEN SMALL ELSE args[i + 1][2]])

DateMap(m) ==
  LET f(k) == IF k \in DOMAIN m THEN m[k] ELSE <<"int", 1>>
      vs == {f("year"), f("month"), f("day")}
  IN IF "timezone" \in DOMAIN m THEN Open
     ELSE IF "year" \notin DOMAIN m THEN Err
     ELSE IF \E v \in vs : IsNull(v) THEN (IF \E v \in vs : ~IsNull(v) /\ ~IsInt(v) THEN Open ELSE Null)
     ELSE IF \E v \in vs : ~IsInt(v) THEN Err
     ELSE IF \E v \in vs : v[1] = "big" THEN Open
     ELSE IF \E v \in vs : Abs(v[2]) > 100000 THEN Open
     ELSE <<"date", DayOf(f("year")[2], f("month")[2], f("day")[2])>>

(* parseDate: text of a format made of one YYYY, one MM, one DD and separators  *)
DateFormats == {Codes(f) : f \in {"YYYY-MM-DD", "DD/MM/YYYY", "MM/DD/YYYY", "DD.MM.YYYY", "YYYY/MM/DD",
                                  "YYYY.DD.MM", "YYYYMMDD", "MM-DD-YYYY", "DD MM YYYY"}}
ParseDateF(s, f) ==
  LET at(w) == FindS(Codes(w), f, 0)
      ps(c) == {i \in 1..Len(f) : f[i] = c}
      y == at("YYYY")
      m == at("MM")
      d == at("DD")
      tok == UNION {ps(89), ps(77), ps(68)}
  IN IF f \notin DateFormats \/ Len(s) # Len(f) THEN Open
     ELSE IF \E i \in 1..Len(f) : IF i \in tok THEN ~IsDigit(s[i]) ELSE s[i] # f[i] THEN Open
     ELSE LET v == MkDate(Num(Slice0(s, y, y + 4)), Num(Slice0(s, m, m + 2)), Num(Slice0(s, d, d + 2)))
          IN IF v[1] = "date" THEN v ELSE Open
Arity == [range |-> <<2, 3>>, labels |-> <<1, 1>>, timestamp |-> <<0, 0>>, type |-> <<1, 1>>,
          size |-> <<1, 1>>, toInteger |-> <<1, 1>>, toIntegerOrNull |-> <<1, 1>>,
          toFloat |-> <<1, 1>>, toFloatOrNull |-> <<1, 1>>, left |-> <<2, 2>>, right |-> <<2, 2>>,
          split |-> <<2, 2>>, trim |-> <<1, 1>>, ltrim |-> <<1, 1>>, rtrim |-> <<1, 1>>,
          substring |-> <<2, 3>>, date |-> <<0, 1>>, parseDate |-> <<2, 2>>]

CallV(name, a, g) ==
  IF name \notin DOMAIN Arity THEN Err
  ELSE IF Len(a) < Arity[name][1] \/ Len(a) > Arity[name][2] THEN Err
  ELSE CASE name = "range" -> RangeV(a[1], a[2], IF Len(a) = 3 THEN a[3] ELSE <<"int", 1>>)
         [] name = "labels" -> (IF IsNull(a[1]) THEN Null
                                ELSE IF a[1][1] # "node" THEN Err
                                ELSE IF a[1][2] \notin DOMAIN g.nodes \/ \E l \in g.nodes[a[1][2]].labels : ~Known(l) THEN Open
                                ELSE ListV(LabelList(g.nodes[a[1][2]].labels)))
         [] name = "timestamp" -> Open
         [] name = "type" -> (IF IsNull(a[1]) THEN Null
                              ELSE IF a[1][1] # "rel" THEN Err
                              ELSE IF Len(a[1][2]) # 1 THEN Err
                              ELSE IF a[1][2][1] \notin DOMAIN g.edges \/ ~Known(g.edges[a[1][2][1]].label) THEN Open
                              ELSE StrV(Codes(g.edges[a[1][2][1]].label)))
         [] name = "size" -> (IF IsNull(a[1]) THEN Null
                              ELSE IF IsList(a[1]) \/ IsStr(a[1]) THEN <<"int", Len(a[1][2])>>
                              ELSE Err)
         [] name = "toInteger" -> ToIntegerV(a[1], FALSE)
         [] name = "toIntegerOrNull" -> ToIntegerV(a[1], TRUE)
         [] name = "toFloat" -> ToFloatV(a[1], FALSE)
         [] name = "toFloatOrNull" -> ToFloatV(a[1], TRUE)
         [] name = "left" -> StrArgs(a, LAMBDA s, n : StrV(SubSeq(s, 1, Min2(Len(s), n[1]))))
         [] name = "right" -> StrArgs(a, LAMBDA s, n : StrV(SubSeq(s, Max2(1, Len(s) - n[1] + 1), Len(s))))
         [] name = "substring" ->
              StrArgs(a, LAMBDA s, n : StrV(IF n[1] >= Len(s) THEN <<>>
                                            ELSE IF Len(n) = 1 \/ n[Len(n)] > Len(s)
                                            THEN SubSeq(s, n[1] + 1, Len(s))
                                            ELSE SubSeq(s, n[1] + 1, Min2(Len(s), n[1] + n[2]))))
         [] name = "split" ->
              (IF IsNull(a[1]) THEN (IF IsNull(a[2]) \/ IsStr(a[2]) THEN Null ELSE Open)
               ELSE IF IsNull(a[2]) THEN (IF IsStr(a[1]) THEN Null ELSE Open)
               ELSE IF ~IsStr(a[1]) \/ ~IsStr(a[2]) THEN Err
               ELSE ListV(MapSeq(StrV, SplitS(a[1][2], a[2][2]))))
         [] name = "trim" -> StrArgs(a, LAMBDA s, n : StrV(TrimS(s)))
         [] name = "ltrim" -> StrArgs(a, LAMBDA s, n : StrV(LTrimS(s)))
         [] name = "rtrim" -> StrArgs(a, LAMBDA s, n : StrV(RTrimS(s)))
         [] name = "date" -> (IF Len(a) = 0 THEN Open
                              ELSE IF IsNull(a[1]) THEN Null
                              ELSE IF IsMap(a[1]) THEN DateMap(a[1][2])
                              ELSE IF IsStr(a[1]) THEN (LET d == ParseDateS(a[1][2]) IN IF IsNull(d) THEN Err ELSE d)
                              ELSE Err)
         [] name = "parseDate" ->
              (IF IsNull(a[1]) \/ IsNull(a[2])
               THEN (IF \A i \in 1..2 : IsNull(a[i]) \/ IsStr(a[i]) THEN Null ELSE Open)
               ELSE IF ~IsStr(a[1]) \/ ~IsStr(a[2]) THEN Err
               ELSE ParseDateF(a[1][2], a[2][2]))

-----------------------------------------------------------------------------
AnyErr(vs) == \E i \in 1..Len(vs) : IsErr(vs[i])
AnyOpen(vs) == \E i \in 1..Len(vs) : IsOpen(vs[i])
\* strict application: a failing operand fails the whole
Strict(vs, v) == IF AnyErr(vs) THEN Err ELSE IF AnyOpen(vs) THEN Open ELSE v

LookupVar(x, env) == IF x \in DOMAIN env.row THEN env.row[x]
                     ELSE IF x \in DOMAIN env.ctx THEN env.ctx[x] ELSE Err

RECURSIVE Ev1(_, _), EvCase(_, _, _, _, _), EvWhen(_, _, _, _)
EvF == [t \in Any |-> Ev1(t[1], t[2])]
Ev(e, env) == EvF[<<e, env>>]
Ev1(e, env) ==
  CASE e[1] = "lit" -> e[2]
    [] e[1] = "var" -> LookupVar(e[2], env)
    [] e[1] = "param" -> (IF e[2] \in DOMAIN env.par THEN env.par[e[2]] ELSE Err)
    [] e[1] = "prop" -> LET b == Ev(e[2], env)
                        IN IF IsErr(b) \/ IsOpen(b) THEN b ELSE PropV(b, e[3], env.g)
    [] e[1] = "list" -> LET vs == TLCEval([i \in 1..Len(e[2]) |-> Ev(e[2][i], env)]) IN Strict(vs, ListV(vs))
    [] e[1] = "map" -> LET vs == TLCEval([i \in 1..Len(e[2]) |-> Ev(e[2][i][2], env)])
                       IN Strict(vs, MapV([k \in {e[2][i][1] : i \in 1..Len(e[2])} |->
                                           vs[Max({i \in 1..Len(e[2]) : e[2][i][1] = k})]]))
    [] e[1] = "bin" -> LET a == Ev(e[3], env)
                           b == Ev(e[4], env)
                       IN IF (IsNull(a) \/ IsOpen(a)) /\ IsErr(b) THEN Open
                          ELSE IF IsErr(a) \/ IsErr(b) THEN Err
                          ELSE IF IsOpen(a) \/ IsOpen(b) THEN Open ELSE BinOp(e[2], a, b)
    [] e[1] = "neg" -> LET a == Ev(e[2], env)
                       IN IF IsErr(a) \/ IsOpen(a) THEN a ELSE Negate(a)
    [] e[1] = "pos" -> LET a == Ev(e[2], env)
                       IN IF IsErr(a) \/ IsOpen(a) \/ IsNum(a) \/ IsNull(a) THEN a ELSE Err
    [] e[1] = "cmp" -> ChainCmp(Ev(e[2], env), [i \in 1..Len(e[3]) |-> e[3][i][1]],
                                TLCEval([i \in 1..Len(e[3]) |-> Ev(e[3][i][2], env)]))
    [] e[1] = "and" -> LogicFold(And2, {True}, TLCEval([i \in 1..Len(e[2]) |-> Ev(e[2][i], env)]))
    [] e[1] = "or"  -> LogicFold(Or2, {False}, TLCEval([i \in 1..Len(e[2]) |-> Ev(e[2][i], env)]))
    [] e[1] = "xor" -> LogicFold(Xor2, {True, False}, TLCEval([i \in 1..Len(e[2]) |-> Ev(e[2][i], env)]))
    [] e[1] = "not" -> LET a == Ev(e[2], env) IN IF IsErr(a) \/ IsOpen(a) THEN a ELSE Not1(a)
    [] e[1] = "in" -> LET a == Ev(e[2], env)
                          b == Ev(e[3], env)
                      IN IF IsErr(a) \/ IsErr(b) THEN Err
                         ELSE IF IsOpen(a) \/ IsOpen(b) THEN Open ELSE InList(a, b)
    [] e[1] = "idx" -> LET a == Ev(e[2], env)
                           b == Ev(e[3], env)
                       IN IF (IsNull(a) \/ IsOpen(a)) /\ IsErr(b) THEN Open
                          ELSE IF IsErr(a) \/ IsErr(b) THEN Err
                          ELSE IF IsOpen(a) \/ IsOpen(b) THEN Open ELSE IndexV(a, b)
    [] e[1] = "slice" -> LET a == Ev(e[2], env)
                             f == IF e[3][1] = "none" THEN e[3] ELSE Ev(e[3], env)
                             t == IF e[4][1] = "none" THEN e[4] ELSE Ev(e[4], env)
                         IN IF IsErr(a) THEN Err
                            ELSE IF (IsNull(a) \/ IsNull(f) \/ IsOpen(a) \/ IsOpen(f)) /\ (IsErr(f) \/ IsErr(t)) THEN Open
                            ELSE IF IsErr(f) \/ IsErr(t) THEN Err
                            ELSE IF IsOpen(a) \/ IsOpen(f) \/ IsOpen(t) THEN Open ELSE SliceV(a, f, t)
    [] e[1] \in {"starts", "ends", "contains"} ->
                      LET a == Ev(e[2], env)
                          b == Ev(e[3], env)
                      IN IF (IsNull(a) \/ IsOpen(a)) /\ IsErr(b) THEN Open
                         ELSE IF IsErr(a) \/ IsErr(b) THEN Err
                         ELSE IF IsOpen(a) \/ IsOpen(b) THEN Open ELSE StrOp(e[1], a, b)
    [] e[1] = "isnull" -> LET a == Ev(e[2], env) IN IF IsErr(a) \/ IsOpen(a) THEN a ELSE BoolV(IsNull(a))
    [] e[1] = "isnotnull" -> LET a == Ev(e[2], env) IN IF IsErr(a) \/ IsOpen(a) THEN a ELSE BoolV(~IsNull(a))
    [] e[1] = "call" -> LET vs == TLCEval([i \in 1..Len(e[3]) |-> Ev(e[3][i], env)])
                        IN Strict(vs, CallV(e[2], vs, env.g))
    [] e[1] = "case" -> LET t == IF e[2][1] = "none" THEN e[2] ELSE Ev(e[2], env)
                        IN IF IsErr(t) \/ IsOpen(t) THEN t ELSE EvCase(t, e[3], e[4], 1, env)
    [] e[1] = "haslabels" -> LET a == Ev(e[2], env)
                             IN IF IsErr(a) \/ IsOpen(a) THEN a
                                ELSE IF IsNull(a) THEN Null
                                ELSE IF a[1] # "node" THEN Err
                                ELSE IF a[2] \notin DOMAIN env.g.nodes THEN Open
                                ELSE BoolV(\A i \in 1..Len(e[3]) : e[3][i] \in env.g.nodes[a[2]].labels)

EvCase(t, alts, els, i, env) ==
  IF i > Len(alts) THEN (IF els[1] = "none" THEN Null ELSE Ev(els, env))
  ELSE EvWhen(t, Ev(alts[i][1], env), <<alts, els, i>>, env)

EvWhen(t, w, rest, env) ==
  LET taken == Ev(rest[1][rest[3]][2], env)
      next == EvCase(t, rest[1], rest[2], rest[3] + 1, env)
  IN IF IsErr(w) \/ IsOpen(w) THEN w
     ELSE IF t[1] = "none"
          THEN IF w = True THEN taken
               ELSE IF Tri(w) THEN next ELSE Err
          ELSE IF IsNull(t) \/ IsNull(w) THEN next
          ELSE LET c == EqVal(t, w) IN IF c = 0 THEN taken ELSE IF c = 3 THEN Open ELSE next
=============================================================================
