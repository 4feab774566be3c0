------------------------------- MODULE ToonKept -------------------------------
(* Strict decoding drops nothing, also in layouts whose meaning ToonDecode     *)
(* leaves open.  The words of a document are its runs of letters and digits    *)
(* that begin with w and a digit.  When they are all different (so that no     *)
(* key can repeat), every word of an accepted document is in its value: in a   *)
(* key or a string.  A line that is just `null` likewise leaves a null.        *)
EXTENDS ToonValue
WLow == 119
IsAlnum(x) == IsAlpha(x) \/ IsDigit(x)
RunEnd(s, i) == (CHOOSE j \in i..(Len(s) + 1) : (j > Len(s) \/ ~IsAlnum(s[j])) /\ \A q \in i..(j - 1) : IsAlnum(s[q])) - 1
Starts(s) == {i \in 1..(Len(s) - 1) : s[i] = WLow /\ IsDigit(s[i + 1]) /\ (i = 1 \/ ~IsAlnum(s[i - 1]))}
WordsIn(s) == {SubSeq(s, i, RunEnd(s, i)) : i \in Starts(s)}

RECURSIVE SumFrom(_, _, _)
SumFrom(F(_), n, i) == IF i > n THEN 0 ELSE F(i) + SumFrom(F, n, i + 1)
RECURSIVE WordsOf(_)
WordsOf(v) == CASE v.t = "str" -> WordsIn(v.s)
                [] v.t = "arr" -> UNION {WordsOf(v.a[i]) : i \in 1..Len(v.a)}
                [] v.t = "obj" -> UNION ({WordsIn(v.k[i]) : i \in 1..Len(v.k)} \cup {WordsOf(v.v[i]) : i \in 1..Len(v.v)})
                [] OTHER -> {}
RECURSIVE Nulls(_)
Nulls(v) == CASE v.t = "null" -> 1
              [] v.t = "arr" -> LET F(i) == Nulls(v.a[i]) IN SumFrom(F, Len(v.a), 1)
              [] v.t = "obj" -> LET F(i) == Nulls(v.v[i]) IN SumFrom(F, Len(v.v), 1)
              [] OTHER -> 0

NullText == <<110, 117, 108, 108>>
\* A line's text behind its indentation and its item's hyphen.
Unhyphened(line) == LET b == TrimStart(line) IN IF Len(b) >= 2 /\ b[1] = DASH /\ b[2] = SP THEN Trim(From(b, 3)) ELSE Trim(b)
\* The columns of an array of no rows are not part of its value; escapes would
\* have to be undone: nothing is claimed about such documents.
Plainly(line) == ~Contains(line, BSL) /\ ~\E i \in 1..(Len(line) - 1) : line[i] = LBRK /\ line[i + 1] = 48
Distinct(lines) == LET F(i) == Cardinality(Starts(lines[i])) IN
  SumFrom(F, Len(lines), 1) = Cardinality(UNION {WordsIn(lines[i]) : i \in 1..Len(lines)})
Claimed(lines) == Distinct(lines) /\ \A i \in 1..Len(lines) : Plainly(lines[i])
Kept(lines, v) ==
  /\ UNION {WordsIn(lines[i]) : i \in 1..Len(lines)} \subseteq WordsOf(v)
  /\ Cardinality({i \in 1..Len(lines) : Unhyphened(lines[i]) = NullText}) <= Nulls(v)
=============================================================================
