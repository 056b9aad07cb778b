--------------------------------- MODULE Lex ---------------------------------
(* The lexical level: what a string, name or number literal denotes, and      *)
(* texts that cannot be a query.  Texts are sequences of code points.         *)
EXTENDS Exprs

BS == 92
SQ == 39
DQ == 34
BT == 96
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
HexNum(s) == FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), 0, s)
AllHex(s) == \A i \in 1..Len(s) : IsHex(s[i])
Bad == <<"bad">>

Simple == (BS :> BS) @@ (SQ :> SQ) @@ (DQ :> DQ)
          @@ (98 :> 8) @@ (66 :> 8) @@ (102 :> 12) @@ (70 :> 12) @@ (110 :> 10) @@ (78 :> 10)
          @@ (114 :> 13) @@ (82 :> 13) @@ (116 :> 9) @@ (84 :> 9)

\* scan the body of a string literal from position i: <<"end", position after the closing quote,
\* decoded text>> or Bad
RECURSIVE ScanStr(_, _, _, _)
ScanStr(s, q, i, acc) ==
  IF i > Len(s) THEN Bad
  ELSE IF s[i] = q THEN <<"end", i + 1, acc>>
  ELSE IF s[i] # BS THEN ScanStr(s, q, i + 1, Append(acc, s[i]))
  ELSE IF i = Len(s) THEN Bad
  ELSE LET c == s[i + 1]
       IN IF c \in DOMAIN Simple THEN ScanStr(s, q, i + 2, Append(acc, Simple[c]))
          ELSE IF c = 85 /\ i + 9 <= Len(s) /\ AllHex(SubSeq(s, i + 2, i + 9)) /\ s[i + 2] = 48 /\ s[i + 3] = 48
               THEN ScanStr(s, q, i + 10, Append(acc, HexNum(SubSeq(s, i + 4, i + 9))))
          ELSE IF c \in {117, 85} /\ i + 5 <= Len(s) /\ AllHex(SubSeq(s, i + 2, i + 5))
               THEN ScanStr(s, q, i + 6, Append(acc, HexNum(SubSeq(s, i + 2, i + 5))))
          ELSE Bad

\* the string denoted by a complete literal, or Null
DecodeStr(s) == IF Len(s) < 2 \/ s[1] \notin {SQ, DQ} THEN Null
                ELSE LET r == ScanStr(s, s[1], 2, <<>>)
                     IN IF r = Bad THEN Null ELSE IF r[2] = Len(s) + 1 THEN StrV(r[3]) ELSE Null

\* position after a `...` name starting at i, Bad if it is not closed
RECURSIVE ScanName(_, _, _)
ScanName(s, i, acc) ==
  IF i > Len(s) THEN Bad
  ELSE IF s[i] # BT THEN ScanName(s, i + 1, Append(acc, s[i]))
  ELSE IF i < Len(s) /\ s[i + 1] = BT THEN ScanName(s, i + 2, Append(acc, BT))
  ELSE <<"end", i + 1, acc>>
DecodeName(s) == IF Len(s) < 2 \/ s[1] # BT THEN Null
                 ELSE LET r == ScanName(s, 2, <<>>)
                      IN IF r = Bad THEN Null ELSE IF r[2] = Len(s) + 1 THEN StrV(r[3]) ELSE Null

\* a real: the literal forms are fewer than those of ParseFloatS; what is too large is an error
DecodeReal(s) ==
  LET es == {k \in 1..Len(s) : s[k] \in {69, 101}}
      k == IF es = {} THEN Len(s) + 1 ELSE Min(es)
      m == SubSeq(s, 1, k - 1)
      x == SubSeq(s, k + 1, Len(s))
      xd == IF x # <<>> /\ x[1] = 45 THEN Tail(x) ELSE x
      dot == FindS(<<46>>, m, 0)
      ip == IF dot = -1 THEN m ELSE Slice0(m, 0, dot)
      fp == IF dot = -1 THEN <<>> ELSE Slice0(m, dot + 1, Len(m))
      ok == /\ (ip # <<>> => AllDigits(ip)) /\ (fp # <<>> => AllDigits(fp))
            /\ (ip # <<>> \/ fp # <<>>) /\ (dot # -1 => fp # <<>>)
            /\ (es # {} => AllDigits(xd)) /\ (dot # -1 \/ es # {})
      f == ParseFloatS(s)
  IN IF ~ok \/ IsNull(f) THEN Err ELSE f

\* integer and decimal literals: value, Err (not a literal / out of range), or Open
DecodeNum(s) ==
  LET hex == Len(s) > 2 /\ s[1] = 48 /\ s[2] = 120
      hm(d) == FoldLeft(LAMBDA m, c : MagAdd(MagMulDigit(m, 16), MagOf(HexVal(c))), <<>>, d)
      om(d) == FoldLeft(LAMBDA m, c : MagAdd(MagMulDigit(m, 8), MagOf(c - 48)), <<>>, d)
      ranged(m) == IF InRange64(FALSE, m) THEN MkInt(FALSE, m) ELSE Err
  IN IF hex THEN (IF AllHex(SubSeq(s, 3, Len(s))) THEN ranged(hm(SubSeq(s, 3, Len(s)))) ELSE Err)
     ELSE IF AllDigits(s)
          THEN (IF Len(s) = 1 \/ s[1] # 48 THEN ranged(DigitsMag(s))
                ELSE IF \A i \in 1..Len(s) : s[i] <= 55 THEN ranged(om(SubSeq(s, 2, Len(s)))) ELSE Err)
     ELSE DecodeReal(s)

-----------------------------------------------------------------------------
(* A text is certainly not a query when it has a character outside the        *)
(* alphabet, an unfinished string or name, unbalanced brackets, or when it    *)
(* ends in an operator.                                                       *)
BadChars == {33, 35, 38, 63, 64, 92, 126}         \* ! # & ? @ \ ~
Openers == (40 :> 41) @@ (91 :> 93) @@ (123 :> 125)
Closers == {41, 93, 125}
Danglers == {43, 47, 37, 94, 61, 46, 44, 58, 124, 36, 45, 60, 62}   \* + / % ^ = . , : | $ - < >

\* position after the comment whose text starts at i: inside, a star and the
\* character after it are taken together
RECURSIVE ScanComment(_, _)
ScanComment(s, i) ==
  IF i >= Len(s) THEN Bad
  ELSE IF s[i] # 42 THEN ScanComment(s, i + 1)
  ELSE IF s[i + 1] = 47 THEN <<"end", i + 2>> ELSE ScanComment(s, i + 2)

RECURSIVE Scan(_, _, _, _)
\* stack of expected closers, last significant character; TRUE = not certainly wrong
Scan(s, i, stack, last) ==
  IF i > Len(s) THEN stack = <<>> /\ last \notin Danglers /\ last # 0
  ELSE LET c == s[i]
       IN IF c = SQ \/ c = DQ
          THEN LET r == ScanStr(s, c, i + 1, <<>>) IN r # Bad /\ Scan(s, r[2], stack, c)
          ELSE IF c = BT
          THEN LET r == ScanName(s, i + 1, <<>>) IN r # Bad /\ Scan(s, r[2], stack, c)
          ELSE IF c = 47 /\ i < Len(s) /\ s[i + 1] = 47
          THEN LET n == FindS(<<10>>, s, i) IN IF n = -1 THEN Scan(s, Len(s) + 1, stack, last) ELSE Scan(s, n + 2, stack, last)
          ELSE IF c = 47 /\ i < Len(s) /\ s[i + 1] = 42
          THEN LET r == ScanComment(s, i + 2) IN r # Bad /\ Scan(s, r[2], stack, last)
          ELSE IF c \in BadChars THEN FALSE
          ELSE IF c \in DOMAIN Openers THEN Scan(s, i + 1, Append(stack, Openers[c]), c)
          ELSE IF c \in Closers THEN stack # <<>> /\ Last1(stack) = c /\ Scan(s, i + 1, SubSeq(stack, 1, Len(stack) - 1), c)
          ELSE Scan(s, i + 1, stack, IF c \in Space \/ c \in 28..31 THEN last ELSE c)

MaybeQuery(s) == s # <<>> /\ Scan(s, 1, <<>>, 0)

-----------------------------------------------------------------------------
(* The escape functions: any literal that denotes the given string will do.   *)
EscapeOk(kind, s, esc) == IF kind = "string" THEN DecodeStr(esc) = StrV(s) ELSE DecodeName(esc) = StrV(s)

Surrogate(v) == IsStr(v) /\ \E i \in 1..Len(v[2]) : v[2][i] \in 55296..57343 \/ v[2][i] > 1114111 \/ v[2][i] = 0

LexVerdict(e) ==
  IF e.out.k = "panic" THEN "bad"
  ELSE CASE e.ev = "strlit" ->
            (LET v == DecodeStr(e.text)
             IN IF Surrogate(v) THEN "open"
                ELSE IF IsNull(v) THEN (IF e.out.k = "err" THEN "ok" ELSE "bad")
                ELSE IF e.out.k = "ok" /\ e.out.v = v THEN "ok" ELSE "bad")
         [] e.ev = "numlit" ->
            (LET v == DecodeNum(e.text)
             IN IF IsOpen(v) THEN "open"
                ELSE IF IsErr(v) THEN (IF e.out.k = "err" THEN "ok" ELSE "bad")
                ELSE IF e.out.k = "ok" /\ e.out.v = v THEN "ok" ELSE "bad")
         [] e.ev = "esc" ->
            (IF EscapeOk(e.kind, e.s, e.esc) /\ e.out.k = "ok" /\ e.out.v = StrV(e.s) THEN "ok" ELSE "bad")
         [] e.ev = "parse" ->
            (IF e.must /\ e.out.k # "ok" THEN "bad"
             ELSE IF ~MaybeQuery(e.text) /\ e.out.k = "ok" THEN "bad" ELSE "ok")
=============================================================================
