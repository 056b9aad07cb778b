------------------------------ MODULE Temporal ------------------------------
(* Proleptic Gregorian calendar.  A date is its day number, 1970-01-01 = 0.   *)
EXTENDS Strings

DaysFromCivil(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

Civil(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>

\* year, month, day with out-of-range months and days carried over
DayOf(y, m, d) == LET mm == m - 1
                  IN DaysFromCivil(y + mm \div 12, (mm % 12) + 1, 1) + d - 1

LeapYear(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF LeapYear(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* deviation from Neo4j kept on purpose: a month sum that lands past the end
\* of a month carries into the next one (31 Jan + 1 month = 3 Mar).
AddMonthsDays(day, months, days) ==
  LET c == Civil(day) IN DayOf(c[1], c[2] + months, c[3] + days)

DAYSEC == 86400
NS == 1000000000
\* normalise (seconds, nanos) with arbitrary integers into <<carry days, sec, ns>>
NormSec(s, ns) == LET s2 == s + ns \div NS
                  IN <<s2 \div DAYSEC, s2 % DAYSEC, ns % NS>>

\* the calendar part is computed for moderate durations only
DurFits(d) == d[1] = "dur" /\ Abs(d[2]) <= 1000000 /\ Abs(d[3]) <= 10000000
DateAdd(a, d, sg) == IF DurFits(d) THEN <<"date", AddMonthsDays(a[2], sg * d[2], sg * d[3])>> ELSE Open
TimeAdd(a, d, sg) == IF d[1] # "dur" THEN Open
                     ELSE LET n == NormSec(a[2] + sg * d[4], a[3] + sg * d[5]) IN <<"ltime", n[2], n[3]>>
LdtAdd(a, d, sg) == IF ~DurFits(d) THEN Open
                    ELSE LET n == NormSec(a[3] + sg * d[4], a[4] + sg * d[5])
                         IN <<"ldt", AddMonthsDays(a[2], sg * d[2], sg * d[3]) + n[1], n[2], n[3]>>

\* component-wise, in 64 bit integers
DurMap(Op(_), d) == LET c == DurC(d) IN MkDur([i \in 1..4 |-> Op(c[i])])
DurAdd(a, b, sg) == LET x == DurC(a)
                        y == DurC(b)
                    IN MkDur([i \in 1..4 |-> IF sg > 0 THEN IntAdd(x[i], y[i]) ELSE IntSub(x[i], y[i])])
DurMulInt(d, n) == DurMap(LAMBDA c : IntMul(c, n), d)
DurDivInt(d, n) == DurMap(LAMBDA c : IntDiv(c, n), d)
\* by a float: every component is scaled as a float and truncated toward zero
DurScale(Op(_), d) ==
  LET c == DurC(d)
      f == TLCEval([i \in 1..4 |-> Op(ToFlt(c[i]))])
      t == TLCEval([i \in 1..4 |-> IF IsFlt(f[i]) THEN FTrunc(f[i]) ELSE Open])
  IN IF \E i \in 1..4 : IsOpen(t[i]) THEN Open ELSE MkDur(t)
DurMulFlt(d, x) == DurScale(LAMBDA c : FMul(c, x), d)
DurDivFlt(d, x) == DurScale(LAMBDA c : FDiv(c, x), d)

-----------------------------------------------------------------------------
(* date(<string>)                                                            *)
Num(ds) == MagToInt(DigitsMag(ds))
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
MkDate(y, m, d) == IF m \in 1..12 /\ d \in 1..DaysIn(y, m)
                   THEN <<"date", DaysFromCivil(y, m, d)>> ELSE Null
OneTwo(s) == AllDigits(s) /\ Len(s) \in 1..2

\* YYYY-M-D, YYYY-M, YYYY and the compact forms YYYYMMDD / YYYYMM with greedy fields
ParseDateS(s) ==
  LET p == SplitS(s, <<45>>)
  IN IF \E i \in 1..Len(s) : ~(IsDigit(s[i]) \/ s[i] = 45) THEN Null
     ELSE IF Len(p) = 3 /\ Len(p[1]) = 4 /\ AllDigits(p[1]) /\ OneTwo(p[2]) /\ OneTwo(p[3])
          THEN MkDate(Num(p[1]), Num(p[2]), Num(p[3]))
     ELSE IF Len(p) = 2 /\ Len(p[1]) = 4 /\ AllDigits(p[1]) /\ OneTwo(p[2])
          THEN MkDate(Num(p[1]), Num(p[2]), 1)
     ELSE IF Len(p) = 1 /\ Len(s) = 4 THEN MkDate(Num(s), 1, 1)
     ELSE IF Len(p) = 1 /\ Len(s) = 8
          THEN MkDate(Num(SubSeq(s, 1, 4)), Num(SubSeq(s, 5, 6)), Num(SubSeq(s, 7, 8)))
     ELSE IF Len(p) = 1 /\ Len(s) = 6 THEN Open
     ELSE IF Len(p) = 1 /\ Len(s) \in {5, 7} THEN Open
     ELSE Null
=============================================================================
