------------------------------ MODULE ToonTools ------------------------------
(* The command line tool and the WebAssembly functions: what each may answer    *)
(* to an input.  Both are the library between a reader and a printer.          *)
(*   request: op "enc" | "dec"; in: the bytes given; readable: they could be     *)
(*            read; d, strict, pretty; fl: float table                           *)
(*   answer:  done: it reports success; out: the text (bytes) it returned;       *)
(*            told: it said something about the failure                          *)
EXTENDS ToonEncode, ToonDecode, ToonBytes, ToonJson

Limit == 10 * 1024 * 1024        \* of the WebAssembly functions, in bytes
ToolEncOpts(q) == [d |-> q.d, n |-> 2, fold |-> FALSE, fd |-> -1]
ToolDecOpts(q) == [strict |-> q.strict, n |-> 2, ex |-> FALSE, fl |-> q.fl]

\* [r |-> "ok", v |-> value] the value the input denotes, Bad if it is refused, Odd.
Meaning(q) ==
  IF ~q.readable \/ (q.limit /\ Len(q.in) > Limit) THEN Bad
  ELSE LET u == FromUtf8(q.in) IN
       IF ~u.ok THEN Bad
       ELSE IF q.op = "enc" THEN ParseJson(u.s, q.fl) ELSE Decode(LinesOf(u.s), ToolDecOpts(q))
\* Is `text` what a tool prints for value v?
Printed(q, v, text) ==
  IF q.op = "enc" THEN text = Join(Encode(v, ToolEncOpts(q)), <<LF>>) ELSE Prints(text, v, q.pretty, q.fl)

\* The command line tool ends its output with one newline; a failure prints
\* nothing on standard output, something on standard error, and is reported.
Body1(q, a) == IF q.nl THEN SubSeq(a.out, 1, Len(a.out) - 1) ELSE a.out
Shape(q, a) == IF a.done THEN ~q.nl \/ (a.out # <<>> /\ a.out[Len(a.out)] = LF)
               ELSE a.out = <<>> /\ a.told
May(q, a, m) ==
  /\ Shape(q, a)
  /\ CASE m.r = "ok" -> a.done /\ LET u == FromUtf8(Body1(q, a)) IN u.ok /\ Printed(q, m.v, u.s)
       [] m.r = "bad" -> ~a.done
       [] m.r = "odd" -> TRUE
=============================================================================
