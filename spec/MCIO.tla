-------------------------------- MODULE MCIO ---------------------------------
(* All schedules of a bounded environment.  A writer answers each call of the  *)
(* library by taking some bytes, being interrupted, taking none, or failing;   *)
(* a reader delivers a chunk, is interrupted or fails.  Once the schedule is    *)
(* used up the environment cooperates.  The library's side is the most general  *)
(* one: it may offer any part of what is left.                                  *)
EXTENDS ToonEncode, ToonDecode, ToonIO, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MCCFG)
Docs == Cfg.docs            \* byte sequences
Sizes == SeqRange(Cfg.sizes)
Max == Cfg.max
Dir == Cfg.dir
Opt == [strict |-> TRUE, n |-> 2, ex |-> FALSE, fl |-> <<>>]

VARIABLES doc, plan, s, res, solo
vars == <<doc, plan, s, res, solo>>
B == Docs[doc]
Init == /\ doc \in 1..Len(Docs) /\ plan = <<>> /\ res = "run"
        /\ s = IF Dir = "w" THEN WInit ELSE RInit
        /\ solo = TRUE       \* the library always offered everything that was left
Ev(t) == [t |-> t]
Note(x) == plan' = IF Len(plan) < Max THEN Append(plan, x) ELSE plan
Free == Len(plan) < Max
MinOf(a, b) == IF a < b THEN a ELSE b

(* writing *)
Left == Len(B) - s.sent
Take(off, k) ==
  LET n == MinOf(off, k) IN
  /\ s' = WStep(s, [t |-> "take", b |-> SubSeq(B, s.sent + 1, s.sent + n)], B)
  /\ res' = res
WriteCall ==
  /\ res = "run" /\ Left > 0 /\ UNCHANGED doc
  /\ \E off \in {1, Left} :
       /\ solo' = (solo /\ off = Left)
       /\ \/ Free /\ \E k \in Sizes : Note([t |-> "take", n |-> k]) /\ Take(off, k)
          \/ Free /\ Note(Ev("intr")) /\ s' = WStep(s, Ev("intr"), B) /\ res' = res
          \/ Free /\ \E x \in {"zero", "err"} : Note(Ev(x)) /\ s' = WStep(s, Ev(x), B) /\ res' = "err"
          \/ ~Free /\ plan' = plan /\ Take(off, off)
WriteDone == res = "run" /\ Left = 0 /\ res' = "ok" /\ UNCHANGED <<doc, plan, s, solo>>

(* reading *)
Rest == Len(B) - Len(s.got)
Dec(lines) == Decode(lines, Opt)
Give(n) == s' = RStep(s, [t |-> "give", b |-> SubSeq(B, Len(s.got) + 1, Len(s.got) + n)]) /\ res' = res
ReadCall ==
  /\ res = "run" /\ ~s.end /\ UNCHANGED <<doc, solo>>
  /\ \/ Free /\ Rest > 0 /\ \E k \in Sizes : Note([t |-> "take", n |-> k]) /\ Give(MinOf(Rest, k))
     \/ Free /\ Note(Ev("intr")) /\ s' = RStep(s, Ev("intr")) /\ res' = res
     \/ Free /\ Note(Ev("err")) /\ s' = RStep(s, Ev("err")) /\ res' = "err"
     \/ ~Free /\ Rest > 0 /\ plan' = plan /\ Give(Rest)
     \/ Rest = 0 /\ plan' = plan /\ s' = RStep(s, Ev("eof")) /\ res' = res
ReadDone == /\ res = "run" /\ s.end /\ UNCHANGED <<doc, plan, s, solo>>
            /\ res' = RMust(s, B, Dec).r
Next == IF Dir = "w" THEN WriteCall \/ WriteDone ELSE ReadCall \/ ReadDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------- properties ------------------------------- *)
Delivered == Dir = "w" => ~s.bad /\ s.sent <= Len(B)
Returned == (Dir = "w" /\ res # "run") => WMay(s, res, B)
OkIffAll == (Dir = "w" /\ res # "run") => (res = "ok" <=> s.sent = Len(B))
\* However the text arrives, it is the same text and the same outcome.
Whole == (Dir = "r" /\ s.end) => s.got = B
Chunking == (Dir = "r" /\ res \notin {"run", "err"}) =>
              res = IF FromUtf8(B).ok THEN Decode(LinesOf(FromUtf8(B).s), Opt).r ELSE "bad"
Faulty == (Dir = "r" /\ s.failed) => res = "err"
Ends == <>(res # "run")
Edges == {0, 9, 127, 128, 2047, 2048, 4095, 55295, 57344, 65535, 65536, 1114111}
ASSUME \A a, b \in Edges : FromUtf8(Utf8(<<a, b, a>>)) = [ok |-> TRUE, s |-> <<a, b, a>>]
ASSUME \A x \in {<<128>>, <<192, 128>>, <<193, 191>>, <<224, 159, 191>>, <<237, 160, 128>>, <<240, 143, 191, 191>>,
                 <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<226, 130>>, <<97, 255>>, <<195>>} : ~FromUtf8(x).ok
Emit == (res # "run" /\ solo) => PrintT("@G " \o ToJson([doc |-> doc, plan |-> plan]))
=============================================================================
