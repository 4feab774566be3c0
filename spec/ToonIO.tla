------------------------------- MODULE ToonIO --------------------------------
(* The writer and reader entry points as machines over the calls made to the   *)
(* environment.  Each recorded call is an event:                               *)
(*   writer  take b: the writer accepted the bytes b      (Ok(n), n >= 1)      *)
(*           intr:   it was interrupted and accepted none (ErrorKind::Interrupted) *)
(*           zero:   it accepted none of a non-empty offer (Ok(0))             *)
(*           err:    it failed                                                 *)
(*   reader  give b: it delivered the bytes b; intr; err; eof: Ok(0)           *)
(* The machines do not prescribe how many calls are made or how much each      *)
(* offers: only what the environment has seen and what may then be returned.   *)
EXTENDS ToonBytes

(* --------------------------------- writing -------------------------------- *)
WInit == [sent |-> 0, failed |-> FALSE, bad |-> FALSE]
WStep(s, e, bytes) ==
  CASE e.t = "take" ->      \* in order, once each, nothing foreign
         IF s.sent + Len(e.b) <= Len(bytes) /\ SubSeq(bytes, s.sent + 1, s.sent + Len(e.b)) = e.b
         THEN [s EXCEPT !.sent = @ + Len(e.b)] ELSE [s EXCEPT !.bad = TRUE]
    [] e.t = "intr" -> s
    [] e.t \in {"err", "zero"} -> [s EXCEPT !.failed = TRUE]
\* May a call that saw this return res?
WMay(s, res, bytes) ==
  /\ ~s.bad
  /\ IF res = "ok" THEN s.sent = Len(bytes) /\ ~s.failed ELSE res = "err" /\ s.failed

(* --------------------------------- reading -------------------------------- *)
RInit == [got |-> <<>>, end |-> FALSE, failed |-> FALSE]
RStep(s, e) ==
  CASE e.t = "give" -> [s EXCEPT !.got = @ \o e.b]
    [] e.t = "intr" -> s
    [] e.t = "err" -> [s EXCEPT !.failed = TRUE]
    [] e.t = "eof" -> [s EXCEPT !.end = TRUE]
\* What a call may return after these events, given the decoder's outcome for a
\* text: Dec(lines) and the bytes the reader holds altogether.  An error before
\* the end is premature unless the whole input is rejected anyway.
RMust(s, whole, Dec(_)) ==
  LET b == IF s.end THEN s.got ELSE whole
      u == FromUtf8(b) IN
  IF s.failed THEN [r |-> "bad"]
  ELSE IF ~u.ok THEN [r |-> "bad"]
  ELSE Dec(LinesOf(u.s))
=============================================================================
