-------------------------------- MODULE Base --------------------------------
(* Shared helpers: folds, bags, functions, total sequence operators.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

Range1(s) == {s[i] : i \in 1..Len(s)}
EmptyFn == [x \in {} |-> 0]
MapSeq(Op(_), s) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])

\* concatenation of a sequence of sequences
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* number of occurrences of x in s
NumOf(x, s) == FoldLeft(LAMBDA a, y : IF x = y THEN a + 1 ELSE a, 0, s)

\* equality of sequences as bags
BagEq(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A x \in Range1(s) : NumOf(x, s) = NumOf(x, t)

\* s is contained in t as a bag
IsSubBag(s, t) ==
  /\ Len(s) <= Len(t)
  /\ \A x \in Range1(s) : NumOf(x, s) <= NumOf(x, t)

\* remove later duplicates under the equivalence Same
DedupBy(Same(_, _), s) ==
  FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : Same(acc[i], x)
                           THEN acc ELSE Append(acc, x), <<>>, s)

\* override f by g
Over(f, g) == g @@ f
Restrict1(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Drop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]

SortInts(s) == SortSeq(s, LAMBDA a, b : a < b)

Last1(s) == s[Len(s)]
\* sub-sequence by 0-based half-open bounds already clamped by the caller
Slice0(s, from, to) == IF from >= to THEN <<>> ELSE SubSeq(s, from + 1, to)

Pow2(n) == FoldLeft(LAMBDA a, b : a * 2, 1, [i \in 1..n |-> i])
=============================================================================
