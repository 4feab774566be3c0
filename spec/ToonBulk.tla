------------------------------ MODULE ToonBulk ------------------------------
(* Documents of n parts, for n far beyond what is judged line by line.  All   *)
(* parts are copies of u, except that part number p (from 0) is w (which may   *)
(* be u as well).  Three shapes:                                               *)
(*   "array"   the parts in order                                              *)
(*   "fields"  fields k0, k1, ... k<n-1>, the parts as their values             *)
(*   "text"    the string of n copies of the string u (w = u)                  *)
(* standing at the root or as the field "a" with a field "z" behind it.        *)
(* Such a text is described by its runs: pre, then the copies of unit (fields: *)
(* unit, the number of the copy, unit2) with sep between, then post.  MCBulk   *)
(* checks, for every small n, that this is the encoder's and the decoder's     *)
(* meaning; what is claimed of a large n is that its size changes nothing.     *)
EXTENDS ToonEncode, ToonDecode

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
KeyK(i) == <<107>> \o IntText(i)
KeyA == <<97>>
KeyZ == <<122>>

\* The whole value (for small n, and for any n in the mind of the reader).
PartsOf(q, n) == [i \in 1..n |-> IF i = q.p + 1 THEN q.w ELSE q.u]
Core(q, n) ==
  CASE q.shape = "array" -> Arr(PartsOf(q, n))
    [] q.shape = "fields" -> Obj([i \in 1..n |-> KeyK(i - 1)], PartsOf(q, n))
    [] q.shape = "text" -> Str(Flat([i \in 1..n |-> q.u.s]))
Whole(q, n) == IF q.inner THEN Obj(<<KeyA, KeyZ>>, <<Core(q, n), q.z>>) ELSE Core(q, n)

\* Three parts tell how all are written.
OddAt(q) == IF q.p = 0 THEN 1 ELSE 2
Three(q) == PartsOf([q EXCEPT !.p = OddAt(q) - 1], 3)
Form(q) ==
  IF q.shape # "array" THEN q.shape
  ELSE IF IsTabular(Three(q)) THEN "table" ELSE IF AllPrim(Three(q)) THEN "inline" ELSE "list"
LFText(lines) == Join(lines, <<LF>>)
\* One part of an array; a field's part is what follows its number.
PartText(q, x, o) ==
  LET dep == IF q.inner THEN 1 ELSE 0 IN
  CASE Form(q) = "inline" -> PrimText(x, o.d)
    [] Form(q) = "table" -> Spaces(o.n) \o Cells(RowOf(x, Three(q)[1].k), o.d)
    [] Form(q) = "list" -> LFText(EncRun(<<ItemTask(x, 1, FALSE)>>, o, <<>>))
    [] Form(q) = "fields" -> From(LFText(EncRun(<<FieldTask(<<107>>, x, dep, FALSE, {})>>, o, <<>>)), dep * o.n + 2)
\* The runs of the text of n copies of which m are announced, n >= 3.
Runs(q, m, o) ==
  LET dep == IF q.inner THEN 1 ELSE 0
      h == (IF q.inner THEN KeyA ELSE <<>>) \o Bracket(m, o.d)
      after == IF q.inner THEN <<LF, 122, COLON, SP>> \o PrimText(q.z, o.d) ELSE <<>>
      run(pre, lead, sep) == [pre |-> pre, lead |-> lead, unit |-> PartText(q, q.u, o), odd |-> PartText(q, q.w, o), sep |-> sep, post |-> after]
  IN
  CASE Form(q) = "inline" -> run(h \o ColonSp, <<>>, <<o.d>>)
    [] Form(q) = "table" -> run(h \o Fields(Three(q)[1].k, o.d) \o <<COLON, LF>>, <<>>, <<LF>>)
    [] Form(q) = "list" -> run(h \o <<COLON, LF>>, <<>>, <<LF>>)
    [] Form(q) = "fields" -> run(IF q.inner THEN <<97, COLON, LF>> ELSE <<>>, Spaces(dep * o.n) \o <<107>>, <<LF>>)
    [] Form(q) = "text" ->
         LET three == PrimText(Str(q.u.s \o q.u.s \o q.u.s), o.d)
             quoted == three[1] = QT
             q1 == IF quoted THEN <<QT>> ELSE <<>>
             mid == IF quoted THEN SubSeq(three, 2, Len(three) - 1) ELSE three
             pre == IF q.inner THEN <<97, COLON, SP>> ELSE <<>>
             unit == SubSeq(mid, 1, Len(mid) \div 3)
         IN [pre |-> pre \o q1, lead |-> <<>>, unit |-> unit, odd |-> unit, sep |-> <<>>, post |-> q1 \o after]
\* The text of runs r with n copies, x put before part p.
Unroll(r, q, n, x) ==
  r.pre \o Join([i \in 1..n |-> (IF i = q.p + 1 THEN x ELSE <<>>) \o r.lead \o (IF q.shape = "fields" THEN IntText(i - 1) ELSE <<>>)
                                \o (IF i = q.p + 1 THEN r.odd ELSE r.unit)], r.sep) \o r.post
\* Its length.
RECURSIVE DigitsTotal(_, _, _)
DigitsTotal(n, lo, k) ==      \* digits of the numbers lo .. n - 1, where lo has k digits and is the first of them
  LET hi == IF k = 1 THEN 10 ELSE 10 * lo IN
  IF n <= hi THEN k * (n - lo) ELSE k * (hi - lo) + DigitsTotal(n, hi, k + 1)
RunLen(r, q, n) ==
  Len(r.pre) + n * Len(r.lead) + (n - 1) * Len(r.unit) + Len(r.odd) + (n - 1) * Len(r.sep) + Len(r.post)
  + (IF q.shape = "fields" THEN DigitsTotal(n, 0, 1) ELSE 0)

\* An encoding, as recorded: the runs found, how many ordinary parts are the
\* unit, the total length.
EncodedAs(ob) ==
  LET r == Runs(ob.q, ob.n, ob.o) IN
  /\ ob.res = "ok"
  /\ ob.pre = r.pre /\ ob.lead = r.lead /\ ob.unit = r.unit /\ ob.odd = r.odd /\ ob.post = r.post
  /\ ob.times = ob.n - 1 /\ ob.total = RunLen(r, ob.q, ob.n)

\* What reading the text does when it has been damaged in one place (dam):
\*   "none"
\*   "count"   ob.m # ob.n parts are announced
\*   "cell"    part p has a cell too many at its end
\*   "blank"   a blank line stands before part p
\*   "tab"     a tab stands before part p
\*   "step"    a space stands before part p
\* "ok": the value; "bad": an error; "odd": open.
Reads(q, m, n, dam, strict, o) ==
  CASE dam = "none" -> "ok"
    [] dam = "count" -> IF q.shape = "array" /\ m # n THEN "bad" ELSE "ok"
    [] dam = "cell" -> IF Form(q) \in {"inline", "table"} THEN "bad" ELSE "odd"
    [] dam = "blank" -> IF Form(q) \in {"table", "list"} /\ q.p > 0 /\ strict THEN "bad"
                        ELSE IF Form(q) \in {"table", "list"} /\ q.p > 0 THEN "ok"
                        ELSE IF Form(q) = "fields" THEN "ok" ELSE "odd"
    [] dam = "tab" -> IF Form(q) \in {"table", "list", "fields"} /\ strict THEN "bad" ELSE "odd"
    [] dam = "step" -> IF Form(q) \in {"table", "list", "fields"} /\ strict /\ o.n > 1 THEN "bad" ELSE "odd"
Before(dam) == CASE dam = "blank" -> <<LF>> [] dam = "tab" -> <<TAB>> [] dam = "step" -> <<SP>> [] OTHER -> <<>>

\* A decoding, as recorded: how many parts came back, the first ordinary one,
\* how many equal it (and have the right key), and part p.
Part(q, o, odd) ==
  LET i == IF odd THEN OddAt(q) ELSE 3
      three == [q EXCEPT !.p = OddAt(q) - 1, !.inner = FALSE] IN
  CASE q.shape = "array" -> RoundTrip(Core(three, 3), o).a[i]
    [] q.shape = "fields" -> RoundTrip(Core(three, 3), o).v[i]
    [] q.shape = "text" -> q.u
DecodedAs(ob) ==
  LET is == Reads(ob.q, ob.m, ob.n, ob.dam, ob.strict, ob.o)
      fine == /\ ob.res = "ok" /\ ob.len = ob.n /\ ob.same = ob.n - 1
              /\ Val(ob.first) = Part(ob.q, ob.o, FALSE)
              /\ Val(ob.pth) = Part(ob.q, ob.o, TRUE)
              /\ ob.q.inner => Val(ob.z) = ob.q.z
  IN CASE ~EncodedAs(ob.enc) -> "open"    \* not the text meant: said of the encoding
       [] is = "ok" -> IF fine THEN "ok" ELSE "bad"
       [] is = "bad" -> IF ob.res = "err" THEN "ok" ELSE "bad"
       [] is = "odd" -> IF ob.res \in {"ok", "err"} THEN "open" ELSE "bad"
=============================================================================
