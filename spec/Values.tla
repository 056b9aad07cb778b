------------------------------- MODULE Values -------------------------------
(* Cypher values as tagged tuples, their comparison, equality and sameness.  *)
(*   <<"null">> <<"bool",b>> <<"int",n>> / <<"big",neg,limbs>>               *)
(*   <<"flt",m,e>> / <<"dbl",neg,limbs,e>> / <<"fltx",text>>  (see Reals)     *)
(*   <<"str",<<code points>>>> <<"list",<<v..>>>> <<"map",fn>>               *)
(*   <<"date",day>> <<"ltime",s,ns>> <<"ldt",day,s,ns>>                      *)
(*   <<"dur",months,days,seconds,nanos>>, or <<"durx",..>> with integer       *)
(*   values when one of them needs 10^9 or more; <<"node",id>> <<"rel",<<ids>>>> *)
(* Two pseudo values: Err (evaluation reports an error) and Open (the         *)
(* specification leaves the outcome open, including an error).               *)
EXTENDS Reals

Err  == <<"err">>
Null == <<"null">>
True == <<"bool", TRUE>>
False == <<"bool", FALSE>>
BoolV(b) == <<"bool", b>>
StrV(s) == <<"str", s>>
ListV(s) == <<"list", s>>
MapV(f) == <<"map", f>>

IsErr(v) == v[1] = "err"
IsOpen(v) == v[1] = "any"
IsNull(v) == v[1] = "null"
IsBool(v) == v[1] = "bool"
IsFlt(v) == v[1] = "flt" \/ v[1] = "dbl"
IsFltAny(v) == IsFlt(v) \/ v[1] = "fltx"
IsNum(v) == IsInt(v) \/ IsFltAny(v)
IsStr(v) == v[1] = "str"
IsList(v) == v[1] = "list"
IsMap(v) == v[1] = "map"
IsDur(v) == v[1] = "dur" \/ v[1] = "durx"

-----------------------------------------------------------------------------
(* Comparison of primitives: -1, 0, 1; 2 = incomparable types; 3 = open.     *)
SeqCmp(a, b) ==
  LET n == Min2(Len(a), Len(b))
      c == FoldLeft(LAMBDA acc, i : IF acc # 0 THEN acc
                                    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE 0,
                    0, [i \in 1..n |-> i])
  IN IF c # 0 THEN c ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0

\* exact, also between integers and floats
InfSgn(v) == IF v[1] = "fltx" THEN (IF v[2] = "+Inf" THEN 1 ELSE -1) ELSE 0
IsNaN(v) == v[1] = "fltx" /\ v[2] \notin {"+Inf", "-Inf"}
NumCmp(a, b) ==
  IF IsInt(a) /\ IsInt(b) THEN IntCmp(a, b)
  ELSE IF IsNaN(a) \/ IsNaN(b) THEN 3
  ELSE IF a[1] = "fltx" \/ b[1] = "fltx" THEN Sgn(InfSgn(a) - InfSgn(b))
  ELSE IF a[1] = "flt" /\ b[1] = "flt" THEN FCmp(a, b)
  ELSE RCmp(RealOf(a), RealOf(b))

\* the components of a duration as integer values
DurC(d) == IF d[1] = "dur" THEN TLCEval([i \in 1..4 |-> IntV(d[i + 1])]) ELSE Tail(d)
MkDur(cs) == LET c == TLCEval(cs)
             IN IF \A i \in 1..4 : c[i][1] = "int" THEN <<"dur", c[1][2], c[2][2], c[3][2], c[4][2]>>
                ELSE <<"durx">> \o c
DurCmp(a, b) ==
  IF a[1] = "dur" /\ b[1] = "dur" THEN SeqCmp(Tail(a), Tail(b))
  ELSE FoldLeft(LAMBDA acc, i : IF acc # 0 THEN acc ELSE IntCmp(DurC(a)[i], DurC(b)[i]), 0, <<1, 2, 3, 4>>)

PCmp(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN NumCmp(a, b)
  ELSE IF IsDur(a) /\ IsDur(b) THEN DurCmp(a, b)
  ELSE IF a[1] # b[1] THEN 2
  ELSE CASE a[1] = "bool" -> (IF a[2] = b[2] THEN 0 ELSE IF a[2] THEN 1 ELSE -1)
         [] a[1] = "str"  -> SeqCmp(a[2], b[2])
         [] a[1] \in {"date", "ltime", "ldt"} -> SeqCmp(Tail(a), Tail(b))
         [] OTHER -> 2

(* Sameness (an equivalence): what DISTINCT and UNION identify.              *)
RECURSIVE Same(_, _)
Same(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN (IF IsNaN(a) \/ IsNaN(b) THEN a = b ELSE NumCmp(a, b) = 0)
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] = "list" -> Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : Same(a[2][i], b[2][i])
         [] a[1] = "map"  -> DOMAIN a[2] = DOMAIN b[2] /\ \A k \in DOMAIN a[2] : Same(a[2][k], b[2][k])
         [] OTHER -> a = b

SameRow(r, s) == DOMAIN r = DOMAIN s /\ \A k \in DOMAIN r : Same(r[k], s[k])
=============================================================================
