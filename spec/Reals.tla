-------------------------------- MODULE Reals --------------------------------
(* IEEE-754 double precision on top of exact integers.  A float value is      *)
(*   <<"flt", m, e>>          m / 2^e in lowest terms, |m| < 10^6, e <= 10     *)
(*   <<"dbl", neg, mag, ex>>  any other finite value (-1)^neg * mag * 2^ex,    *)
(*                            2^52 <= mag < 2^53, or mag < 2^52 and ex = -1074 *)
(*   <<"fltx", "+Inf">>, "-Inf", "NaN"                                        *)
(* so that equal values have equal representations (-0 is 0: the language     *)
(* cannot tell them apart, as division by zero is an error).                  *)
(* A real is [neg, mag, ex]; RoundR gives the nearest float, ties to even.    *)
EXTENDS BigInt

Open == <<"any">>
IsOpen0(v) == v[1] = "any"
FMAX == 1000000
EMAX == 10

P2Tab == FoldLeft(LAMBDA acc, i : Append(acc, MagMulDigit(acc[Len(acc)], 2)), << <<1>> >>, [i \in 1..1100 |-> i])
RECURSIVE MPow2(_)
MPow2(n) == IF n <= 1100 THEN P2Tab[n + 1]
            ELSE LET h == MPow2(n \div 2)
                     q == MagMul(h, h)
                 IN IF n % 2 = 0 THEN q ELSE MagMulDigit(q, 2)
MPow10(n) == [i \in 1..(n \div 4) |-> 0] \o << <<1, 10, 100, 1000>>[(n % 4) + 1] >>
Shl(m, k) == IF k = 0 THEN m ELSE MagMul(m, MPow2(k))
IsOdd(m) == m # <<>> /\ m[1] % 2 = 1

RECURSIVE BitsOf(_)
BitsOf(t) == IF t = 0 THEN 0 ELSE 1 + BitsOf(t \div 2)
RECURSIVE BitUp(_, _)
BitUp(m, n) == IF MagCmp(m, MPow2(n)) >= 0 THEN BitUp(m, n + 1) ELSE n
\* the number of binary digits
BitLen(m) == IF m = <<>> THEN 0
             ELSE BitUp(m, BitsOf(m[Len(m)]) + ((Len(m) - 1) * 13287) \div 1000)

RECURSIVE FNorm(_, _)
FNorm(m, e) == IF e > 0 /\ m % 2 = 0 THEN FNorm(m \div 2, e - 1) ELSE <<m, e>>

\* the small form, or Open
FltV(m, e) == LET n == FNorm(m, e)
              IN IF Abs(n[1]) < FMAX /\ n[2] <= EMAX THEN <<"flt", n[1], n[2]>> ELSE Open

FZero == <<"flt", 0, 0>>
FOne == <<"flt", 1, 0>>
InfV(neg) == <<"fltx", IF neg THEN "-Inf" ELSE "+Inf">>

\* (-1)^neg * mag * 2^ex as a float; it is known to be one, or too large
CanonR(neg, mag, ex) ==
  IF mag = <<>> THEN FZero
  ELSE LET n == BitLen(mag)
           k == IF ex < -EMAX THEN -ex - EMAX ELSE 0
           e == IF ex < -EMAX THEN EMAX ELSE IF ex < 0 THEN -ex ELSE 0
           dm == IF k = 0 THEN [q |-> IF ex > 0 THEN Shl(mag, ex) ELSE mag, r |-> <<>>] ELSE MagDivMod(mag, MPow2(k))
           q == MagToInt(dm.q)
           sm == IF dm.r # <<>> THEN Open ELSE FltV(IF neg THEN -q ELSE q, e)
           s == Min2(53 - n, ex + 1074)
           big == <<"dbl", neg, Shl(mag, s), ex - s>>
       IN IF n + ex > 1024 THEN InfV(neg)
          ELSE IF n + ex > 20 \/ k > n THEN big
          ELSE IF IsOpen0(sm) THEN big ELSE sm

\* the float nearest to (-1)^neg * mag * 2^ex, or to a little more than that if sticky
Ones53 == MagSub(MPow2(53), <<1>>)
RoundR1(neg, mag, ex, sticky) ==
  IF mag = <<>> THEN FZero
  ELSE LET n == BitLen(mag)
           k == Max2(n - 53, -1074 - ex)
           dm == MagDivMod(mag, MPow2(k))
           c == MagCmp(dm.r, MPow2(k - 1))
           up == c > 0 \/ (c = 0 /\ (sticky \/ IsOdd(dm.q)))
       IN IF n + ex > 1100 THEN InfV(neg)
          ELSE IF k <= 0 THEN CanonR(neg, mag, ex)
          ELSE IF k > n + 1 THEN FZero
          ELSE IF up /\ dm.q = Ones53 THEN CanonR(neg, MPow2(52), ex + k + 1)
          ELSE CanonR(neg, IF up THEN MagAdd(dm.q, <<1>>) ELSE dm.q, ex + k)

RoundRF == [t \in Any |-> RoundR1(t[1], t[2], t[3], t[4])]
RoundR(neg, mag, ex, sticky) == RoundRF[<<neg, mag, ex, sticky>>]

\* an int or finite float as a real
RealOf(v) == CASE v[1] = "dbl" -> [neg |-> v[2], mag |-> v[3], ex |-> v[4]]
               [] v[1] = "flt" -> [neg |-> v[2] < 0, mag |-> MagOf(Abs(v[2])), ex |-> -v[3]]
               [] OTHER -> [neg |-> Neg(v), mag |-> Mag(v), ex |-> 0]
RoundReal(r) == RoundR(r.neg, r.mag, r.ex, FALSE)

\* int or float value to a float value; infinities and NaN are not computed with
ToFlt(v) == CASE v[1] = "flt" \/ v[1] = "dbl" -> v
              [] v[1] = "int" -> (LET f == FltV(v[2], 0) IN IF IsOpen0(f) THEN RoundReal(RealOf(v)) ELSE f)
              [] v[1] = "big" -> RoundReal(RealOf(v))
              [] OTHER -> Open

-----------------------------------------------------------------------------
RAdd(x, y) ==
  LET tx == BitLen(x.mag) + x.ex
      ty == BitLen(y.mag) + y.ex
      E == Min2(x.ex, y.ex)
      s == BigAddExact(x.neg, Shl(x.mag, x.ex - E), y.neg, Shl(y.mag, y.ex - E))
  IN IF x.mag = <<>> THEN RoundReal(y)
     ELSE IF y.mag = <<>> THEN RoundReal(x)
     ELSE IF tx - ty > 120 THEN RoundReal(x)
     ELSE IF ty - tx > 120 THEN RoundReal(y)
     ELSE RoundR(s.neg, s.mag, E, FALSE)
RNeg(x) == [x EXCEPT !.neg = ~x.neg]
RMul(x, y) == RoundR(x.neg # y.neg, MagMul(x.mag, y.mag), x.ex + y.ex, FALSE)
RDiv1(x, y) ==
  LET s == Max2(0, 56 + BitLen(y.mag) - BitLen(x.mag))
      dm == MagDivMod(Shl(x.mag, s), y.mag)
  IN RoundR(x.neg # y.neg, dm.q, x.ex - s - y.ex, dm.r # <<>>)

RDivF == [t \in Any |-> RDiv1(t[1], t[2])]
RDiv(x, y) == RDivF[<<x, y>>]

\* compares the magnitudes
RCmpMag(x, y) ==
  LET tx == BitLen(x.mag) + x.ex
      ty == BitLen(y.mag) + y.ex
      E == Min2(x.ex, y.ex)
  IN IF x.mag = <<>> \/ y.mag = <<>> THEN Sgn(Len(x.mag) - Len(y.mag))
     ELSE IF tx # ty THEN Sgn(tx - ty)
     ELSE MagCmp(Shl(x.mag, x.ex - E), Shl(y.mag, y.ex - E))
RSgn(x) == IF x.mag = <<>> THEN 0 ELSE IF x.neg THEN -1 ELSE 1
RCmp(x, y) == IF RSgn(x) # RSgn(y) THEN Sgn(RSgn(x) - RSgn(y))
              ELSE IF RSgn(x) < 0 THEN -RCmpMag(x, y) ELSE RCmpMag(x, y)

\* the exact remainder of the truncated quotient
RMod(x, y) ==
  IF RCmpMag(x, y) < 0 THEN RoundReal(x)
  ELSE IF x.ex - y.ex > 600 THEN Open
  ELSE LET E == Min2(x.ex, y.ex)
       IN RoundR(x.neg, MagDivMod(Shl(x.mag, x.ex - E), Shl(y.mag, y.ex - E)).r, E, FALSE)

\* the integer next to it toward zero: [neg, mag]; some magnitude beyond 64 bits when it is
RTrunc(x) ==
  IF x.ex >= 0 THEN (IF BitLen(x.mag) + x.ex > 64 THEN [neg |-> x.neg, mag |-> Two64] ELSE [neg |-> x.neg, mag |-> Shl(x.mag, x.ex)])
  ELSE IF -x.ex >= BitLen(x.mag) THEN [neg |-> FALSE, mag |-> <<>>]
  ELSE [neg |-> x.neg, mag |-> MagDivMod(x.mag, MPow2(-x.ex)).q]

-----------------------------------------------------------------------------
(* The operations on float values, with short cuts for the small form         *)
Both(a, b) == a[1] = "flt" /\ b[1] = "flt"


FAddS(a, b) == LET E == Max2(a[3], b[3])
               IN FltV(a[2] * Pow2(E - a[3]) + b[2] * Pow2(E - b[3]), E)
FMulS(a, b) == IF Abs(a[2]) <= 31000 /\ Abs(b[2]) <= 31000 THEN FltV(a[2] * b[2], a[3] + b[3]) ELSE Open
FNeg(a) == IF a[1] = "flt" THEN <<"flt", -a[2], a[3]>> ELSE <<"dbl", ~a[2], a[3], a[4]>>
FAdd(a, b) == LET f == IF Both(a, b) THEN FAddS(a, b) ELSE Open
              IN IF IsOpen0(f) THEN RAdd(RealOf(a), RealOf(b)) ELSE f
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) == LET f == IF Both(a, b) THEN FMulS(a, b) ELSE Open
              IN IF IsOpen0(f) THEN RMul(RealOf(a), RealOf(b)) ELSE f
FDiv(a, b) == RDiv(RealOf(a), RealOf(b))
FMod(a, b) == RMod(RealOf(a), RealOf(b))
FCmp(a, b) == IF Both(a, b)
              THEN LET E == Max2(a[3], b[3]) IN Sgn(a[2] * Pow2(E - a[3]) - b[2] * Pow2(E - b[3]))
              ELSE RCmp(RealOf(a), RealOf(b))
\* truncation toward zero to an int value, Open when there is none
FTrunc(a) == LET t == RTrunc(RealOf(a))
             IN IF InRange64(t.neg, t.mag) THEN MkInt(t.neg, t.mag) ELSE Open

-----------------------------------------------------------------------------
(* Powers: only where the result of the C library function is determined -    *)
(* exact products, reciprocals of exact products, square roots.               *)
RECURSIVE OddPart(_, _)
OddPart(m, e) == IF m = <<>> \/ IsOdd(m) THEN [mag |-> m, ex |-> e]
                 ELSE OddPart(MagDivMod(m, <<2>>).q, e + 1)
\* m^n, or <<>> when it needs more than 53 bits
RECURSIVE PowMag(_, _)
PowMag(m, n) == IF n = 0 \/ m = <<1>> THEN <<1>>
                ELSE LET p == PowMag(m, n - 1)
                     IN IF p = <<>> THEN <<>>
                        ELSE LET q == MagMul(p, m) IN IF BitLen(q) > 53 THEN <<>> ELSE q
FPowN(a, n) ==      \* n > 0
  LET r == RealOf(a)
      o == OddPart(r.mag, r.ex)
      p == IF o.mag # <<1>> /\ n > 40 THEN <<>> ELSE PowMag(o.mag, n)
  IN IF r.mag = <<>> THEN FZero
     ELSE IF p = <<>> THEN Open
     ELSE RoundReal([neg |-> r.neg /\ n % 2 = 1, mag |-> p, ex |-> o.ex * n])

RECURSIVE ISqrt(_, _, _)
ISqrt(m, lo, hi) == IF lo = hi THEN lo     \* the largest r in lo..hi (magnitudes) with r*r <= m
                    ELSE LET mid == MagDivMod(MagAdd(MagAdd(lo, hi), <<1>>), <<2>>).q
                         IN IF MagCmp(MagMul(mid, mid), m) <= 0 THEN ISqrt(m, mid, hi)
                            ELSE ISqrt(m, lo, MagSub(mid, <<1>>))
FSqrt(a) ==
  LET r == RealOf(a)
      s0 == Max2(0, 112 - BitLen(r.mag))
      s == IF (r.ex - s0) % 2 = 0 THEN s0 ELSE s0 + 1
      m == Shl(r.mag, s)
      n == BitLen(m)
      q == ISqrt(m, MPow2((n - 1) \div 2), MPow2((n + 1) \div 2))
  IN IF r.mag = <<>> THEN FZero
     ELSE IF r.neg THEN <<"fltx", "NaN">>
     ELSE RoundR(FALSE, q, (r.ex - s) \div 2, MagMul(q, q) # m)

Half == <<"flt", 1, 1>>
FPow(a, b) ==
  LET n == IF b[1] = "flt" THEN b[2] ELSE 0
      rp == FPowN(a, Abs(n))
      ok(v) == IF v[1] = "flt" \/ (v[1] = "dbl" /\ v[4] > -1074) THEN v ELSE Open
  IN IF b = FZero \/ a = FOne THEN FOne
     ELSE IF b = FOne THEN a
     ELSE IF b = Half THEN FSqrt(a)
     ELSE IF b = <<"flt", -1, 1>>
     THEN (LET q == FSqrt(a) IN IF q[1] = "fltx" THEN q ELSE IF q = FZero THEN Open ELSE FDiv(FOne, q))
     ELSE IF b[1] # "flt" THEN Open
     ELSE IF b[3] # 0 \/ Abs(n) > 1000 THEN Open
     ELSE IF IsOpen0(rp) THEN Open
     ELSE IF n > 0 THEN ok(rp)
     ELSE IF a = FZero \/ rp[1] = "fltx" \/ rp = FZero THEN Open ELSE ok(FDiv(FOne, rp))

-----------------------------------------------------------------------------
\* the float nearest to (-1)^neg * mag * 10^e
RoundDec1(neg, mag, e) ==
  IF mag = <<>> THEN FZero
  ELSE IF 4 * Len(mag) + e > 400 THEN InfV(neg)
  ELSE IF 4 * Len(mag) + e < -400 THEN FZero
  ELSE IF e >= 0 THEN RoundR(neg, MagMul(mag, MPow10(e)), 0, FALSE)
  ELSE LET D == MPow10(-e)
           s == Max2(0, 56 + BitLen(D) - BitLen(mag))
           dm == MagDivMod(Shl(mag, s), D)
       IN RoundR(neg, dm.q, -s, dm.r # <<>>)
RoundDecF == [t \in Any |-> RoundDec1(t[1], t[2], t[3])]
RoundDec(neg, mag, e) == RoundDecF[<<neg, mag, e>>]
=============================================================================
