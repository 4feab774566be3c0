------------------------------ MODULE ToonText ------------------------------
(* Text is a sequence of Unicode code points.  This module holds the small   *)
(* vocabulary every other module is written in: characters, spacing,        *)
(* trimming, joining, and scanning that respects double quotes.             *)
EXTENDS Integers, Sequences, FiniteSets

TAB == 9   LF == 10   CR == 13   SP == 32   QT == 34   PLUS == 43
COMMA == 44   DASH == 45   DOT == 46   COLON == 58   AT == 64
LBRK == 91   BSL == 92   RBRK == 93   USC == 95
LBRC == 123   PIPE == 124   RBRC == 125

IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsControl(c) == c < 32 \/ c = 127
IsWs(c) == c = SP \/ c = TAB

\* Unicode White_Space (what Rust's str::trim removes).
WhiteSpace == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202)
              \cup {8232, 8233, 8239, 8287, 12288}

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Contains(s, c) == \E i \in 1..Len(s) : s[i] = c
ContainsAny(s, S) == \E i \in 1..Len(s) : s[i] \in S

Spaces(n) == [i \in 1..n |-> SP]
Zeros(n) == [i \in 1..n |-> 0]
DigitText(ds) == [i \in 1..Len(ds) |-> ds[i] + 48]

From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

RECURSIVE IntDigits(_)
IntDigits(n) == IF n < 10 THEN <<n>> ELSE Append(IntDigits(n \div 10), n % 10)
IntText(n) == DigitText(IntDigits(n))

\* First position >= i whose character is outside S (Len(s)+1 if none).
RECURSIVE SkipSet(_, _, _)
SkipSet(s, i, S) == IF i <= Len(s) /\ s[i] \in S THEN SkipSet(s, i + 1, S) ELSE i
\* Last position <= j whose character is outside S (0 if none).
RECURSIVE SkipSetBack(_, _, _)
SkipSetBack(s, j, S) == IF j >= 1 /\ s[j] \in S THEN SkipSetBack(s, j - 1, S) ELSE j

TrimSet(s, S) == SubSeq(s, SkipSet(s, 1, S), SkipSetBack(s, Len(s), S))
WsSet == {SP, TAB}
Trim(s) == TrimSet(s, WsSet)
TrimStart(s) == From(s, SkipSet(s, 1, WsSet))
LeadingSpaces(s) == SkipSet(s, 1, {SP}) - 1

RECURSIVE JoinFrom(_, _, _)
JoinFrom(parts, sep, i) ==
  IF i > Len(parts) THEN <<>>
  ELSE IF i = Len(parts) THEN parts[i]
  ELSE parts[i] \o sep \o JoinFrom(parts, sep, i + 1)
Join(parts, sep) == JoinFrom(parts, sep, 1)

RECURSIVE SplitAll(_, _)
\* Split on every occurrence of c (no quoting).
SplitAll(s, c) ==
  LET I == {i \in 1..Len(s) : s[i] = c} IN
  IF I = {} THEN <<s>>
  ELSE LET p == CHOOSE i \in I : \A j \in I : i <= j
       IN <<SubSeq(s, 1, p - 1)>> \o SplitAll(From(s, p + 1), c)

\* First position >= i holding a character of T outside double quotes; 0 if
\* none.  Inside quotes a backslash hides the next character.
RECURSIVE FindUnq(_, _, _, _)
FindUnq(s, i, inq, T) ==
  IF i > Len(s) THEN 0
  ELSE IF inq
       THEN IF s[i] = BSL THEN FindUnq(s, i + 2, TRUE, T)
            ELSE FindUnq(s, i + 1, s[i] # QT, T)
       ELSE IF s[i] \in T THEN i
            ELSE FindUnq(s, i + 1, s[i] = QT, T)
FindOutside(s, T) == FindUnq(s, 1, FALSE, T)

\* Tokens between unquoted delimiters, surrounding blanks removed.  There is
\* always at least one token; empty tokens are kept.
RECURSIVE SplitUnq(_, _)
SplitUnq(s, d) ==
  LET p == FindOutside(s, {d}) IN
  IF p = 0 THEN <<Trim(s)>>
  ELSE <<Trim(SubSeq(s, 1, p - 1))>> \o SplitUnq(From(s, p + 1), d)

\* Position of the quote closing the quoted string that opens at position 1,
\* 0 if it is never closed.
RECURSIVE CloseFrom(_, _)
CloseFrom(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = BSL THEN CloseFrom(s, i + 2)
  ELSE IF s[i] = QT THEN i
  ELSE CloseFrom(s, i + 1)
=============================================================================
