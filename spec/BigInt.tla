------------------------------- MODULE BigInt -------------------------------
(* 64-bit two's complement integers on top of TLC's 32-bit ones.             *)
(* A magnitude is a little-endian sequence of base-10000 limbs without       *)
(* leading zeros (<<>> is zero).  An integer value is <<"int", n>> when      *)
(* |n| < 10^9 and <<"big", neg, mag>> otherwise - a canonical form, so that  *)
(* equality of values is equality of representations.                        *)
EXTENDS Base

BASE == 10000
SMALL == 1000000000

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o MagOf(n \div BASE)

MagCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE FoldLeft(LAMBDA acc, i : IF a[i] = b[i] THEN acc
                                ELSE IF a[i] < b[i] THEN -1 ELSE 1,
                0, [i \in 1..Len(a) |-> i])

MagAdd(a, b) ==
  LET n == Max2(Len(a), Len(b))
      r == FoldLeft(LAMBDA acc, i :
             LET t == Limb(a, i) + Limb(b, i) + acc[2]
             IN <<Append(acc[1], t % BASE), t \div BASE>>,
             << <<>>, 0>>, [i \in 1..n |-> i])
  IN Strip(Append(r[1], r[2]))

\* a >= b
MagSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i :
             LET t == Limb(a, i) - Limb(b, i) - acc[2]
             IN IF t < 0 THEN <<Append(acc[1], t + BASE), 1>> ELSE <<Append(acc[1], t), 0>>,
             << <<>>, 0>>, [i \in 1..Len(a) |-> i])
  IN Strip(r[1])

MagMulDigit(a, d) ==
  LET r == FoldLeft(LAMBDA acc, i :
             LET t == a[i] * d + acc[2]
             IN <<Append(acc[1], t % BASE), t \div BASE>>,
             << <<>>, 0>>, [i \in 1..Len(a) |-> i])
  IN Strip(Append(r[1], r[2]))

MagMul1(a, b) ==
  FoldLeft(LAMBDA acc, i : MagAdd(acc, [j \in 1..(i-1) |-> 0] \o MagMulDigit(a, b[i])),
           <<>>, [i \in 1..Len(b) |-> i])

MagMulF == [t \in Any |-> MagMul1(t[1], t[2])]
MagMul(a, b) == MagMulF[<<a, b>>]

\* the largest digit d with b*d <= r, by bisection in lo..hi
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MagCmp(MagMulDigit(b, mid), r) <= 0 THEN QDigit(r, b, mid, hi)
          ELSE QDigit(r, b, lo, mid - 1)

\* quotient and remainder by one limb
MagDivLimb(a, d) ==
  LET n == Len(a)
      r == FoldLeft(LAMBDA acc, k :
             LET t == acc[2] * BASE + a[n + 1 - k]
             IN <<<<t \div d>> \o acc[1], t % d>>,
             << <<>>, 0>>, [k \in 1..n |-> k])
  IN [q |-> Strip(r[1]), r |-> MagOf(r[2])]

\* quotient and remainder, b # 0: both scaled so that b begins with a large limb,
\* which leaves few candidates for each digit
MagDivMod1(a, b) ==
  LET nb == Len(b)
      k1 == BASE \div (b[nb] + 1)
      as == TLCEval(MagMulDigit(a, k1))
      bs == TLCEval(MagMulDigit(b, k1))
      n == Len(as)
      bt == bs[nb]
      r == FoldLeft(LAMBDA acc, k :
             LET rem == TLCEval(Strip(<<as[n + 1 - k]>> \o acc[2]))
                 rt == Limb(rem, nb) + BASE * Limb(rem, nb + 1)
                 d == QDigit(rem, bs, rt \div (bt + 1), Min2(BASE - 1, (rt + 1) \div bt))
             IN <<<<d>> \o acc[1], MagSub(rem, MagMulDigit(bs, d))>>,
             << <<>>, <<>> >>, [k \in 1..n |-> k])
  IN IF nb = 1 THEN MagDivLimb(a, b[1])
     ELSE IF MagCmp(a, b) < 0 THEN [q |-> <<>>, r |-> a]
     ELSE [q |-> Strip(r[1]), r |-> MagDivLimb(r[2], k1).q]

MagDivModF == [t \in Any |-> MagDivMod1(t[1], t[2])]
MagDivMod(a, b) == MagDivModF[<<a, b>>]

Two63 == <<5808, 5477, 368, 3372, 922>>
Two64 == <<1616, 955, 737, 6744, 1844>>

IsInt(v) == v[1] = "int" \/ v[1] = "big"
Neg(v) == IF v[1] = "int" THEN v[2] < 0 ELSE v[2]
Mag(v) == IF v[1] = "int" THEN MagOf(Abs(v[2])) ELSE v[3]

MagSmall(m) == Len(m) < 3 \/ (Len(m) = 3 /\ m[3] < 10)
MagToInt(m) == FoldLeft(LAMBDA acc, k : acc * BASE + m[Len(m) + 1 - k], 0, [k \in 1..Len(m) |-> k])

\* canonical value from sign and magnitude
MkInt(neg, m) ==
  IF MagSmall(m) THEN <<"int", IF neg THEN -MagToInt(m) ELSE MagToInt(m)>>
  ELSE <<"big", neg, m>>

IntV(n) == IF Abs(n) < SMALL THEN <<"int", n>> ELSE <<"big", n < 0, MagOf(Abs(n))>>

\* wrap an exact sign/magnitude into the int64 range
Wrap64(neg, m) ==
  LET mm == MagDivMod(m, Two64).r
      u == IF neg /\ mm # <<>> THEN MagSub(Two64, mm) ELSE mm     \* value mod 2^64
  IN IF MagCmp(u, Two63) >= 0 THEN MkInt(TRUE, MagSub(Two64, u)) ELSE MkInt(FALSE, u)

InRange64(neg, m) == IF neg THEN MagCmp(m, Two63) <= 0 ELSE MagCmp(m, Two63) < 0

IntNeg(a) == IF a[1] = "int" THEN <<"int", -a[2]>> ELSE Wrap64(~Neg(a), Mag(a))

BigAddExact(na, ma, nb, mb) ==
  IF na = nb THEN [neg |-> na, mag |-> MagAdd(ma, mb)]
  ELSE IF MagCmp(ma, mb) >= 0 THEN [neg |-> na, mag |-> MagSub(ma, mb)]
  ELSE [neg |-> nb, mag |-> MagSub(mb, ma)]

IntAdd(a, b) ==
  IF a[1] = "int" /\ b[1] = "int" THEN IntV(a[2] + b[2])
  ELSE LET r == BigAddExact(Neg(a), Mag(a), Neg(b), Mag(b)) IN Wrap64(r.neg, r.mag)

IntSub(a, b) ==
  IF a[1] = "int" /\ b[1] = "int" THEN IntV(a[2] - b[2])
  ELSE LET r == BigAddExact(Neg(a), Mag(a), ~Neg(b), Mag(b)) IN Wrap64(r.neg, r.mag)

IntMul(a, b) ==
  IF a[1] = "int" /\ b[1] = "int" /\ Abs(a[2]) <= 31000 /\ Abs(b[2]) <= 31000
  THEN <<"int", a[2] * b[2]>>
  ELSE Wrap64(Neg(a) # Neg(b), MagMul(Mag(a), Mag(b)))

IsZero(v) == v = <<"int", 0>>

\* Go semantics: truncation toward zero, remainder with the dividend's sign
IntDiv(a, b) ==
  IF a[1] = "int" /\ b[1] = "int"
  THEN LET q == Abs(a[2]) \div Abs(b[2])
       IN <<"int", IF Sgn(a[2]) * Sgn(b[2]) < 0 THEN -q ELSE q>>
  ELSE Wrap64(Neg(a) # Neg(b), MagDivMod(Mag(a), Mag(b)).q)

IntMod(a, b) ==
  IF a[1] = "int" /\ b[1] = "int"
  THEN LET r == Abs(a[2]) % Abs(b[2]) IN <<"int", IF a[2] < 0 THEN -r ELSE r>>
  ELSE Wrap64(Neg(a), MagDivMod(Mag(a), Mag(b)).r)

IntCmp(a, b) ==
  IF a[1] = "int" /\ b[1] = "int" THEN (IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0)
  ELSE IF Neg(a) # Neg(b) THEN (IF Neg(a) THEN -1 ELSE 1)
  ELSE LET c == MagCmp(Mag(a), Mag(b)) IN IF Neg(a) THEN -c ELSE c
=============================================================================
