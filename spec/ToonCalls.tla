------------------------------ MODULE ToonCalls ------------------------------
(* The library as a system of calls.  A call runs on a thread and, on its way,  *)
(* passes gates: the points where it hands control to its caller's own code     *)
(* (a Serialize or Deserialize implementation, a writer, a reader).  At a gate   *)
(* the caller may go on, report an error, panic, or first make another call on  *)
(* the same thread; meanwhile other threads make calls of their own.            *)
(* The system has no state but the calls in progress: what a call returns       *)
(* depends on that call alone.                                                  *)
(*   senc venc   encode to a string, streaming / value-based; a gate for every  *)
(*               string of the value, in order                                  *)
(*   dec         decode into a caller's type; a gate for every string           *)
(*   wenc rdec   encode to a writer, decode from a reader; a gate at the first   *)
(*               write and the first read                                       *)
(*   plain       decode to JSON; no gate                                        *)
(* Events: [t: thread, a: "begin" (c: call), "pass", "err", "panic"].           *)
EXTENDS ToonEncode, ToonDecode

RECURSIVE Strings(_)
RECURSIVE StringsOf(_, _)
StringsOf(vs, i) == IF i > Len(vs) THEN 0 ELSE Strings(vs[i]) + StringsOf(vs, i + 1)
Strings(v) ==
  CASE v.t = "str" -> 1
    [] v.t = "arr" -> StringsOf(v.a, 1)
    [] v.t = "obj" -> StringsOf(v.v, 1)
    [] OTHER -> 0

Encodes(call) == call.op \in {"senc", "venc", "wenc"}
\* What a call that is left alone returns.
Result(call) ==
  IF Encodes(call) THEN [res |-> "ok", lines |-> Encode(Val(call.v), call.o)]
  ELSE LET d == Decode(call.lines, call.o) IN
       CASE d.r = "ok" -> [res |-> "ok", v |-> d.v]
         [] d.r = "bad" -> [res |-> "err"]
         [] d.r = "odd" -> [res |-> "any"]
Gates(call) ==
  CASE call.op \in {"senc", "venc"} -> Strings(Val(call.v))
    [] call.op = "wenc" -> IF Encode(Val(call.v), call.o) = <<>> THEN 0 ELSE 1
    [] call.op = "dec" -> LET d == Decode(call.lines, call.o) IN IF d.r = "ok" THEN Strings(d.v) ELSE 0
    [] call.op = "rdec" -> 1
    [] call.op = "plain" -> 0

(* state: for every thread its calls in progress, innermost first *)
Quiet(n) == [t \in 1..n |-> <<>>]
Wait == [res |-> "wait"]
Possible(s, e) == IF e.a = "begin" THEN TRUE ELSE s[e.t] # <<>>
\* [s: next state, out: what the event leads to].  g: the gates of the begun call, r: its result.
Step(s, e, g, r) ==
  LET st == s[e.t]
      top == Head(st)
      pop == [s EXCEPT ![e.t] = Tail(st)] IN
  CASE e.a = "begin" -> IF g = 0 THEN [s |-> s, out |-> r]
                        ELSE [s |-> [s EXCEPT ![e.t] = <<[c |-> e.c, left |-> g, r |-> r]>> \o st], out |-> Wait]
    [] e.a = "pass" -> IF top.left = 1 THEN [s |-> pop, out |-> top.r]
                       ELSE [s |-> [s EXCEPT ![e.t] = <<[top EXCEPT !.left = @ - 1]>> \o Tail(st)], out |-> Wait]
    [] e.a = "err" -> [s |-> pop, out |-> [res |-> "err"]]
    [] e.a = "panic" -> [s |-> pop, out |-> [res |-> "panic"]]
\* The recorded outcome x against the specified one (of an error of the library's
\* own, its message too).
Fits(x, out) ==
  CASE out.res = "any" -> x.res \in {"ok", "err"}
    [] out.res = "ok" -> x.res = "ok" /\ (IF "v" \in DOMAIN out THEN Val(x.v) = Val(out.v) ELSE x.lines = out.lines)
    [] OTHER -> x.res = out.res /\ ("msg" \in DOMAIN out => x.msg = out.msg)
\* What a call must return, given what it returned (b) when it was made alone:
\* that fixes what the specification leaves open.
Pinned(r, b) ==
  CASE r.res = "any" /\ Fits(b, r) -> b
    [] r.res = "err" /\ b.res = "err" -> b
    [] OTHER -> r
=============================================================================
