------------------------------ MODULE ToonBytes ------------------------------
(* UTF-8: the bytes of a text, and the text of bytes (strictly: no overlong   *)
(* forms, no surrogates, nothing above 10FFFF).                               *)
EXTENDS ToonText

Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8Of(_, _, _)
Utf8Of(s, i, j) ==
  IF i > j THEN <<>> ELSE IF i = j THEN Utf8Char(s[i])
  ELSE LET h == (i + j) \div 2 IN Utf8Of(s, i, h) \o Utf8Of(s, h + 1, j)
\* Text of ASCII only is its own bytes.
Utf8(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN s ELSE Utf8Of(s, 1, Len(s))

Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] <= 191
\* The character starting at byte i: [n: bytes used, c], n = 0 if there is none.
NoChar == [n |-> 0, c |-> 0]
CharAt(b, i) ==
  LET x == b[i] IN
  CASE x < 128 -> [n |-> 1, c |-> x]
    [] x >= 194 /\ x <= 223 -> IF Cont(b, i + 1) THEN [n |-> 2, c |-> (x - 192) * 64 + (b[i + 1] - 128)] ELSE NoChar
    [] x >= 224 /\ x <= 239 ->
         IF ~(Cont(b, i + 1) /\ Cont(b, i + 2)) THEN NoChar
         ELSE LET c == (x - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128) IN
              IF c < 2048 \/ (c >= 55296 /\ c <= 57343) THEN NoChar ELSE [n |-> 3, c |-> c]
    [] x >= 240 /\ x <= 244 ->
         IF ~(Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)) THEN NoChar
         ELSE LET c == (x - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128) IN
              IF c < 65536 \/ c > 1114111 THEN NoChar ELSE [n |-> 4, c |-> c]
    [] OTHER -> NoChar
\* Every byte that is not a continuation starts a character, and the characters
\* account for every byte.
RECURSIVE CharsOf(_, _, _)
CharsOf(b, i, j) ==      \* [ok, n, s] of the characters starting in i..j
  IF i > j THEN [ok |-> TRUE, n |-> 0, s |-> <<>>]
  ELSE IF i = j
       THEN IF b[i] >= 128 /\ b[i] <= 191 THEN [ok |-> TRUE, n |-> 0, s |-> <<>>]
            ELSE LET x == CharAt(b, i) IN [ok |-> x.n > 0, n |-> x.n, s |-> <<x.c>>]
  ELSE LET h == (i + j) \div 2
           a == CharsOf(b, i, h)
           z == CharsOf(b, h + 1, j)
       IN [ok |-> a.ok /\ z.ok, n |-> a.n + z.n, s |-> a.s \o z.s]
FromUtf8(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN [ok |-> TRUE, s |-> b]
               ELSE LET x == CharsOf(b, 1, Len(b)) IN [ok |-> x.ok /\ x.n = Len(b), s |-> x.s]

\* The lines of a text; the empty text has none.
LinesOf(s) == IF s = <<>> THEN <<>> ELSE SplitAll(s, LF)
=============================================================================
