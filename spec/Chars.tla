------------------------------- MODULE Chars --------------------------------
(* Character codes and text utilities.  Text is a sequence of codes. *)
EXTENDS Naturals, Integers, Sequences, LBHost

NL    == 10
TABC  == 9
CR    == 13
SPACE == 32
QUOTE == 34
DOLLAR == 36

IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)

Up(c)  == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

\* a function on 1..n as a proper tuple (TLC keeps [i \in 1..n |-> ...] unevaluated)
Tup(f, n) == SubSeq(f, 1, n)

Upper(t) == Tup([i \in 1..Len(t) |-> Up(t[i])], Len(t))
Lower(t) == Tup([i \in 1..Len(t) |-> Low(t[i])], Len(t))

Spaces(n) == Tup([i \in 1..n |-> SPACE], n)

RECURSIVE NatRev(_)
NatRev(n) == IF n < 10 THEN <<48 + n>> ELSE NatRev(n \div 10) \o <<48 + (n % 10)>>
NatTxt(n) == IF n < 0 THEN <<45>> \o NatRev(-n) ELSE NatRev(n)

\* right-justified in a field
Pad(t, w) == IF Len(t) < w THEN Spaces(w - Len(t)) \o t ELSE t

\* order of texts by character code
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LessFrom(a, b, i + 1)
TextLess(a, b) == LessFrom(a, b, 1)

\* position of the first c in t from i on, or Len(t)+1
RECURSIVE FindFrom(_, _, _)
FindFrom(t, c, i) == IF i > Len(t) THEN i ELSE IF t[i] = c THEN i ELSE FindFrom(t, c, i + 1)

\* position of the first non-blank at or after i
RECURSIVE SkipBlank(_, _)
SkipBlank(t, i) == IF i <= Len(t) /\ (t[i] = SPACE \/ t[i] = TABC) THEN SkipBlank(t, i + 1) ELSE i

RECURSIVE SkipDigits(_, _)
SkipDigits(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN SkipDigits(t, i + 1) ELSE i

RECURSIVE SkipAlpha(_, _)
SkipAlpha(t, i) == IF i <= Len(t) /\ IsAlpha(t[i]) THEN SkipAlpha(t, i + 1) ELSE i

\* decimal number in t[i..j-1], saturating at BIG
BIG == 2000000000
RECURSIVE NumFrom(_, _, _, _)
NumFrom(t, i, j, n) ==
  IF i >= j THEN n
  ELSE IF n > 199999998 THEN BIG
  ELSE NumFrom(t, i + 1, j, 10 * n + (t[i] - 48))

Drop(t, i) == SubSeq(t, i, Len(t))   \* from position i on
Front1(q) == SubSeq(q, 1, Len(q) - 1)
Last(q) == q[Len(q)]

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1]
           ELSE Flat(SubSeq(q, 1, Len(q) \div 2)) \o Flat(SubSeq(q, Len(q) \div 2 + 1, Len(q)))
=============================================================================
