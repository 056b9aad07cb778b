------------------------------- MODULE Strings ------------------------------
(* Strings are sequences of Unicode code points.                             *)
EXTENDS Values

IsPrefixS(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSuffixS(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* 0-based position of the first occurrence of p in s at or after from, -1 if none
FindS(p, s, from) ==
  LET I == {i \in from..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p}
  IN IF I = {} THEN -1 ELSE Min(I)
ContainsS(p, s) == FindS(p, s, 0) # -1

Space == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
LTrimS(s) == LET I == {i \in 1..Len(s) : s[i] \notin Space}
             IN IF I = {} THEN <<>> ELSE SubSeq(s, Min(I), Len(s))
RTrimS(s) == LET I == {i \in 1..Len(s) : s[i] \notin Space}
             IN IF I = {} THEN <<>> ELSE SubSeq(s, 1, Max(I))
TrimS(s) == LTrimS(RTrimS(s))

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, d, from) ==
  LET p == FindS(d, s, from)
  IN IF p = -1 THEN <<Slice0(s, from, Len(s))>>
     ELSE <<Slice0(s, from, p)>> \o SplitFrom(s, d, p + Len(d))
SplitS(s, d) == IF d = <<>> THEN [i \in 1..Len(s) |-> <<s[i]>>] ELSE SplitFrom(s, d, 0)

IsDigit(c) == c >= 48 /\ c <= 57
\* decimal digits (code points) to a magnitude
DigitsMag(ds) == FoldLeft(LAMBDA m, c : MagAdd(MagMulDigit(m, 10), MagOf(c - 48)), <<>>, ds)

\* strict decimal integer:  [+-]? [0-9]+  within int64; Null when malformed
SignedDigits(s) == LET sg == s # <<>> /\ (s[1] = 43 \/ s[1] = 45)
                       ds == IF sg THEN Tail(s) ELSE s
                   IN ds # <<>> /\ \A i \in 1..Len(ds) : IsDigit(ds[i])
ParseIntS(s) ==
  LET sg == s # <<>> /\ (s[1] = 43 \/ s[1] = 45)
      ds == IF sg THEN Tail(s) ELSE s
      ng == sg /\ s[1] = 45
  IN IF ds = <<>> \/ \E i \in 1..Len(ds) : ~IsDigit(ds[i]) THEN Null
     ELSE LET m == DigitsMag(ds) IN IF InRange64(ng, m) THEN MkInt(ng, m) ELSE Null

\* decimal fraction  [+-]? (digits [. digits?] | . digits) [(e|E) [+-]? digits]  to the
\* nearest float;  Null: no float, or too large for one;  Open: special forms, digit separators
LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Specials == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>, <<110, 97, 110>>}
DecInt(ds) == IF Len(ds) > 6 THEN (IF \A i \in 1..Len(ds) : ds[i] = 48 THEN 0 ELSE 999999)
              ELSE FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, ds)
ParseFloatS(s) ==
  LET sg == s # <<>> /\ (s[1] = 43 \/ s[1] = 45)
      b == IF sg THEN Tail(s) ELSE s
      ng == sg /\ s[1] = 45
      es == {i \in 1..Len(b) : b[i] \in {69, 101}}
      k == IF es = {} THEN Len(b) + 1 ELSE Min(es)
      mt == SubSeq(b, 1, k - 1)
      x == SubSeq(b, k + 1, Len(b))
      xs == x # <<>> /\ (x[1] = 43 \/ x[1] = 45)
      xd == IF xs THEN Tail(x) ELSE x
      xn == DecInt(xd)
      dot == FindS(<<46>>, mt, 0)
      ip == IF dot = -1 THEN mt ELSE Slice0(mt, 0, dot)
      fp == IF dot = -1 THEN <<>> ELSE Slice0(mt, dot + 1, Len(mt))
      digits(d) == \A i \in 1..Len(d) : IsDigit(d[i])
      f == RoundDec(ng, DigitsMag(ip \o fp), (IF xs /\ x[1] = 45 THEN -xn ELSE xn) - Len(fp))
  IN IF Len(b) >= 2 /\ b[1] = 48 /\ b[2] \in {88, 120} THEN Open
     ELSE IF [i \in 1..Len(b) |-> LowerC(b[i])] \in Specials \/ \E i \in 1..Len(b) : b[i] = 95 THEN Open
     ELSE IF ~digits(ip) \/ ~digits(fp) \/ ip \o fp = <<>> THEN Null
     ELSE IF es # {} /\ (xd = <<>> \/ ~digits(xd)) THEN Null
     ELSE IF f[1] = "fltx" THEN Null ELSE f
=============================================================================
