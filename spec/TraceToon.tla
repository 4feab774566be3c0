------------------------------ MODULE TraceToon ------------------------------
(* Validates recorded sessions of the real library against the specification. *)
(* A session is a sequence of observations; this machine walks every session,  *)
(* advancing the encoder or decoder machine by one line per step, and prints a *)
(* verdict for every observation:                                              *)
(*   ok    the observation is a behaviour of the specification                 *)
(*   bad   it is not                                                           *)
(*   open  the specification leaves it open (and the open part held)           *)
EXTENDS ToonEncode, ToonDecode, ToonSerde, ToonIO, ToonTools, ToonCalls, ToonBulk, ToonKept, TLC, TLCExt, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, i, m
vars == <<c, i, m>>
\* A session is deterministic: where we are in it identifies the state.
view == <<c, i, m.at, m.k>>

ObsOf(cc, ii) == Cases[cc].obs[ii]

\* Long observations are judged in one step (same machines, run to completion).
AtOnce(ob) == "once" \in DOMAIN ob
Start(ob) ==
  CASE AtOnce(ob) -> [k |-> "whole", at |-> 0]
    [] ob.k = "enc" -> [k |-> "enc", at |-> 0, todo |-> EncInit(Val(ob.v), ob.o)]
    [] ob.k = "dec" -> [k |-> "dec", at |-> 0, s |-> DecInit(ob.lines, ob.o)]
    [] ob.k = "ser" ->      \* encoding of a typed value, through its call tree
         LET j == JsonOf(ob.tree) IN
         IF j.r = "ok" THEN [k |-> "enc", at |-> 0, todo |-> EncInit(j.v, ob.o)]
         ELSE [k |-> j.r, at |-> 0]
    [] OTHER -> [k |-> "rel", at |-> 0]

\* Print the verdict and go on with the next observation.
Verdict(x) ==
  /\ PrintT(<<"V", Cases[c].id, i, ObsOf(c, i).k, x, m.at>>)
  /\ c' = c
  /\ IF i < Len(Cases[c].obs)
     THEN i' = i + 1 /\ m' = Start(ObsOf(c, i + 1))
     ELSE i' = i + 1 /\ m' = [k |-> "end", at |-> 0]

(* ------------------------------ encoding --------------------------------- *)
EncNext(ob) ==
  IF ob.res # "ok" THEN Verdict("bad")
  ELSE IF m.todo = <<>> THEN Verdict(IF m.at = Len(ob.lines) THEN "ok" ELSE "bad")
  ELSE IF m.at = Len(ob.lines) THEN Verdict("bad")
  ELSE LET r == EncStep(m.todo, ob.o) IN
       IF r.line # ob.lines[m.at + 1] THEN Verdict("bad")
       ELSE /\ m' = [m EXCEPT !.at = @ + 1, !.todo = r.todo]
            /\ UNCHANGED <<c, i>>

(* ------------------------------ decoding --------------------------------- *)
\* Whatever the outcome: a value or an error naming an existing line.
Total(ob) == \/ ob.res = "ok"
             \/ ob.res = "err" /\ (ob.el = -1 \/ (ob.el >= 1 /\ ob.el <= Len(ob.lines)))
Judge(ob, out) ==
  IF ~Total(ob) THEN "bad"
  ELSE CASE out.r = "ok" -> IF ob.res = "ok" /\ Val(ob.v) = out.v THEN "ok" ELSE "bad"
         [] out.r = "bad" -> IF ob.res = "err" THEN "ok" ELSE "bad"
         [] out.r = "odd" -> "open"
DecNext(ob) ==
  IF m.s.r # "run" \/ m.at = Len(ob.lines) THEN Verdict(Judge(ob, DecFinish(m.s, ob.o)))
  ELSE /\ m' = [m EXCEPT !.at = @ + 1, !.s = DecStep(m.s, ob.lines[m.at + 1], ob.o)]
       /\ UNCHANGED <<c, i>>

WholeNext(ob) ==
  Verdict(IF ob.k = "enc" THEN IF ob.res = "ok" /\ Encode(Val(ob.v), ob.o) = ob.lines THEN "ok" ELSE "bad"
          ELSE Judge(ob, Decode(ob.lines, ob.o)))

(* ----------------- relations between observations of a session ------------ *)
\* A typed value whose maps repeat a key text has no one JSON equivalent: nothing is claimed.
Same(a, b) == \/ a.is = "ser" /\ JsonOf(a.tree).r = "dup"
              \/ a.res = b.res /\ (a.res = "ok" =>
                    CASE a.is \in {"enc", "ser"} -> a.lines = b.lines
                      [] a.is = "typed" -> a.x = b.x
                      [] OTHER -> a.v = b.v)
Rel(ob) ==
  CASE ob.k = "rt" ->       \* obs j decoded what the encoding of v (options o) denotes
         LET d == ObsOf(c, ob.j) IN
         d.res = "ok" /\ Val(d.v) = RoundTrip(Val(ob.v), ob.o)
    [] ob.k = "same" ->     \* obs a and b agree
         Same(ObsOf(c, ob.a), ObsOf(c, ob.b))
    [] ob.k = "implies" ->  \* acceptance by a implies the same value from b
         LET a == ObsOf(c, ob.a)  b == ObsOf(c, ob.b) IN a.res = "ok" => (b.res = "ok" /\ a.v = b.v)
\* Typed decoding: ob.jv is the text's JSON value (ob.jres), ob.ty the type, ob.cx what
\* a generic conversion of the JSON value gives (ob.cres), ob.x the result (ob.res).
TypedVerdict(ob) ==
  IF ob.res \notin {"ok", "err"} \/ ob.jres \notin {"ok", "err"} THEN "bad"
  ELSE IF ob.jres = "err" THEN (IF ob.res = "err" THEN "ok" ELSE "bad")
  ELSE IF ob.cres = "ok" /\ ~(ob.res = "ok" /\ ob.x = ob.cx) THEN "bad"
  ELSE LET r == Convert(ob.jv, ob.ty) IN
       CASE r.r = "ok" -> IF ob.res = "ok" /\ ob.x = r.x THEN "ok" ELSE "bad"
         [] r.r = "no" -> IF ob.res = "err" THEN "ok" ELSE "bad"
         [] r.r = "odd" -> "open"
\* Reading a typed value's own text back as its type.
IdentVerdict(ob) ==
  LET j == JsonOf(ob.tree) IN
  IF j.r # "ok" \/ ~Faithful(ob.tree) THEN (IF ob.res \in {"ok", "err"} THEN "open" ELSE "bad")
  ELSE IF ob.res = "ok" /\ Sorted(ob.back) = Sorted(ob.tree) THEN "ok" ELSE "bad"
\* Reading and writing through an environment that splits, interrupts and fails.
RECURSIVE WRun(_, _, _, _)
WRun(s, ev, j, bytes) == IF j > Len(ev) THEN s ELSE WRun(WStep(s, ev[j], bytes), ev, j + 1, bytes)
RECURSIVE RRun(_, _, _)
RRun(s, ev, j) == IF j > Len(ev) THEN s ELSE RRun(RStep(s, ev[j]), ev, j + 1)
IoVerdict(ob) ==
  IF ob.dir = "w"
  THEN LET j == IF ob.is = "tree" THEN JsonOf(ob.x) ELSE Ok(Val(ob.x)) IN
       IF j.r = "err" THEN (IF ob.res = "err" THEN "ok" ELSE "bad")
       ELSE IF j.r = "dup" THEN (IF ob.res \in {"ok", "err"} THEN "open" ELSE "bad")
       ELSE LET bytes == Utf8(Join(Encode(j.v, ob.o), <<LF>>)) IN
            IF WMay(WRun(WInit, ob.ev, 1, bytes), ob.res, bytes) THEN "ok" ELSE "bad"
  ELSE LET s == RRun(RInit, ob.ev, 1)
           Dec(lines) == Decode(lines, ob.o)
           m0 == RMust(s, ob.whole, Dec) IN
       IF ob.res \notin {"ok", "err"} \/ (ob.res = "ok" /\ ~s.end) THEN "bad"
       \* whatever the text means, it means the same read whole
       ELSE IF ~s.failed /\ ob.sres # "none" /\ ~(ob.res = ob.sres /\ (ob.res = "ok" => ob.v = ob.sv)) THEN "bad"
       ELSE CASE m0.r = "ok" -> IF ob.res = "ok" /\ Val(ob.v) = m0.v THEN "ok" ELSE "bad"
              [] m0.r = "bad" -> IF ob.res = "err" THEN "ok" ELSE "bad"
              [] m0.r = "odd" -> "open"
\* One use of the command line tool or a WebAssembly function, which also
\* answers exactly what the library answers.
ToolVerdict(ob) ==
  LET m0 == Meaning(ob.q) IN
  IF /\ May(ob.q, ob.a, m0)
     /\ ob.a.done = ob.lib
     /\ ob.a.done => Body1(ob.q, ob.a) = ob.lout
  THEN IF m0.r = "odd" THEN "open" ELSE "ok"
  ELSE "bad"
\* Inputs around the size limit; ob.eq: the answer is the library's.
LimitVerdict(ob) ==
  IF IF ob.len <= Limit THEN ob.res = "ok" /\ ob.eq ELSE ob.res = "err" /\ ob.told THEN "ok" ELSE "bad"
\* A document too big to judge line by line, given by its number of lines nl:
\* it is decoded on a small stack, as JSON (res, el) and skipped as a whole
\* (ires, iel): a value or an error naming an existing line, both times.
BigVerdict(ob) ==
  LET Fine(res, el) == res = "ok" \/ (res = "err" /\ (el = -1 \/ (el >= 1 /\ el <= ob.nl))) IN
  IF Fine(ob.res, ob.el) /\ Fine(ob.ires, ob.iel) THEN "ok" ELSE "bad"
\* Strict decoding of a document of distinct words: none of them is lost.
KeptVerdict(ob) ==
  IF ~Total(ob) THEN "bad"
  ELSE IF ob.res = "err" THEN "ok"
  ELSE IF ~Claimed(ob.lines) THEN "open"
  ELSE IF Kept(ob.lines, ob.v) THEN "ok" ELSE "bad"
\* A schedule of calls, the outcome of every event recorded with it.
RECURSIVE CallsRun(_, _, _, _)
CallsRun(ob, gr, s, j) ==
  IF j > Len(ob.ev) THEN TRUE
  ELSE LET e == ob.ev[j]
           x == IF e.a = "begin" THEN Step(s, e, gr[e.c].g, gr[e.c].r) ELSE Step(s, e, 0, 0) IN
       Possible(s, e) /\ Fits(e.out, x.out) /\ CallsRun(ob, gr, x.s, j + 1)
\* (first: what each call returned alone.)
Must(ob, q) == Pinned(Result(ob.calls[q]), ob.first[q])
CallsVerdict(ob) ==
  LET gr == TLCEval([q \in 1..Len(ob.calls) |-> [g |-> Gates(ob.calls[q]), r |-> Must(ob, q)]]) IN
  IF CallsRun(ob, gr, Quiet(ob.threads), 1) THEN "ok" ELSE "bad"
\* Calls made at once by several threads: every outcome each of them had.
BurstVerdict(ob) ==
  IF \A q \in 1..Len(ob.calls) : LET r == Must(ob, q) IN \A j \in 1..Len(ob.outs[q]) : Fits(ob.outs[q][j], r)
  THEN "ok" ELSE "bad"
RelNext(ob) ==
  CASE ob.k = "seen" -> Verdict("seen")      \* recorded for the relations only
    [] ob.k = "typed" -> Verdict(TypedVerdict(ob))
    [] ob.k = "ident" -> Verdict(IdentVerdict(ob))
    [] ob.k = "tool" -> Verdict(ToolVerdict(ob))
    [] ob.k = "limit" -> Verdict(LimitVerdict(ob))
    [] ob.k = "calls" -> Verdict(CallsVerdict(ob))
    [] ob.k = "burst" -> Verdict(BurstVerdict(ob))
    [] ob.k = "big" -> Verdict(BigVerdict(ob))
    [] ob.k = "kept" -> Verdict(KeptVerdict(ob))
    [] ob.k = "bulke" -> Verdict(IF EncodedAs(ob) THEN "ok" ELSE "bad")
    [] ob.k = "bulkd" -> Verdict(DecodedAs(ob))
    [] ob.k = "io" -> Verdict(IoVerdict(ob))
    [] ob.k = "total" -> Verdict(IF Total(ob) THEN "ok" ELSE "bad")
    [] OTHER -> Verdict(IF Rel(ob) THEN "ok" ELSE "bad")

Init == /\ c \in 1..Len(Cases)
        /\ i = 1
        /\ m = Start(ObsOf(c, 1))
Next == /\ m.k # "end"
        /\ LET ob == ObsOf(c, i) IN
           CASE m.k = "enc" -> EncNext(ob)
             [] m.k = "dec" -> DecNext(ob)
             [] m.k = "whole" -> WholeNext(ob)
             [] m.k = "err" -> Verdict(IF ob.res = "err" THEN "ok" ELSE "bad")      \* the value reports an error
             [] m.k = "dup" -> Verdict(IF ob.res = "panic" THEN "bad" ELSE "open")  \* repeated keys
             [] m.k = "rel" -> RelNext(ob)
Spec == Init /\ [][Next]_vars
=============================================================================
