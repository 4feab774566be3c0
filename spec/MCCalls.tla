------------------------------- MODULE MCCalls --------------------------------
(* All schedules of a bounded number of calls from a pool on a few threads:     *)
(* which call begins when and where (also inside another call), and what        *)
(* happens at every gate.  Complete schedules are printed, to be carried out     *)
(* with the library.                                                            *)
EXTENDS ToonCalls, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MCCFG)
Pool == Cfg.calls
Threads == Cfg.threads
Max == Cfg.max              \* calls begun
Fates == SeqRange(Cfg.fates)
G == [c \in 1..Len(Pool) |-> Gates(Pool[c])]
R == [c \in 1..Len(Pool) |-> Result(Pool[c])]

VARIABLES s, ev, n, ends
vars == <<s, ev, n, ends>>
\* ends: every finished call with its own events and outcome; frames in s carry
\* their own events so far (kept beside, by depth)
VARIABLE own
Init == s = Quiet(Threads) /\ ev = <<>> /\ n = 0 /\ ends = {} /\ own = [t \in 1..Threads |-> <<>>]
Used == {ev[i].t : i \in 1..Len(ev)}
Do(e) ==
  LET x == IF e.a = "begin" THEN Step(s, e, G[e.c], R[e.c]) ELSE Step(s, e, 0, 0)
      mine == IF e.a = "begin" THEN [c |-> e.c, as |-> <<>>]
              ELSE [Head(own[e.t]) EXCEPT !.as = Append(@, e.a)]
      rest == IF e.a = "begin" THEN own[e.t] ELSE Tail(own[e.t]) IN
  /\ s' = x.s /\ ev' = Append(ev, e)
  /\ IF x.out = Wait THEN ends' = ends /\ own' = [own EXCEPT ![e.t] = <<mine>> \o rest]
     ELSE ends' = ends \cup {[c |-> mine.c, as |-> mine.as, out |-> x.out]} /\ own' = [own EXCEPT ![e.t] = rest]
Begin == n < Max /\ n' = n + 1 /\ \E t \in 1..Threads, c \in 1..Len(Pool) :
           /\ t = 1 \/ \E u \in Used : t <= u + 1       \* threads in order of first use
           /\ Do([t |-> t, a |-> "begin", c |-> c])
Gate == n' = n /\ \E t \in 1..Threads, a \in Fates : s[t] # <<>> /\ Do([t |-> t, a |-> a])
Idle == s = Quiet(Threads)
Next == Begin \/ Gate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------- properties ------------------------------- *)
\* A call ends as it would have ended alone, given what its own gates did.
RECURSIVE Solo(_, _, _)
Solo(c, as, i) ==
  IF i > Len(as) THEN R[c]
  ELSE IF as[i] # "pass" THEN [res |-> as[i]]
  ELSE Solo(c, as, i + 1)
Independent == \A x \in ends : x.out = Solo(x.c, x.as, 1)
\* Calls are neither lost nor repeated.
Balanced == LET Open(t) == Len(s[t]) IN \A t \in 1..Threads : Open(t) = Len(own[t])
Ends == <>(Idle /\ n = Max)
Emit == (n = Max /\ Idle) => PrintT("@G " \o ToJson([ev |-> ev]))
=============================================================================
