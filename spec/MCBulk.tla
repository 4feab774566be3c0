-------------------------------- MODULE MCBulk --------------------------------
(* The runs of ToonBulk are what the encoder writes and the decoder reads, for  *)
(* every unit of a given list, every shape, place and exception, every small n  *)
(* and m, and every damage.                                                     *)
EXTENDS ToonBulk, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MCCFG)
VARIABLES q, n, o
vars == <<q, n, o>>
Z == [t |-> "num", neg |-> FALSE, d |-> <<7>>, e |-> 0]
\* First the unit, then the rest.
Init == /\ q \in {[u |-> u, p |-> -1] : u \in SeqRange(Cfg.units)}
        /\ n = 3 /\ o = Cfg.opts[1]
Next == /\ q.p = -1
        /\ n' \in 3..Cfg.max
        /\ \E w \in SeqRange(Cfg.odds) \cup {q.u}, s \in {"array", "fields", "text"}, inner \in BOOLEAN, p \in 0..(n' - 1) :
             /\ s = "text" => q.u.t = "str" /\ q.u.s # <<>> /\ q.u = w /\ p = 0
             /\ q' = [shape |-> s, u |-> q.u, w |-> w, p |-> p, inner |-> inner, z |-> Z]
        /\ o' \in SeqRange(Cfg.opts)
Chosen == q.p >= 0
RECURSIVE LinesOf(_)
LinesOf(s) == IF s = <<>> THEN <<>> ELSE SplitAll(s, LF)
Text(m, x) == Unroll(Runs(q, m, o), q, n, x)
Written == Chosen => LinesOf(Text(n, <<>>)) = Encode(Whole(q, n), o)
Long == Chosen => Len(Text(n + 1, <<>>)) = RunLen(Runs(q, n + 1, o), q, n)
Outcome(text, strict) == Decode(LinesOf(text), [strict |-> strict, n |-> o.n, ex |-> FALSE, fl |-> <<>>])
Is(out, r) == CASE r = "ok" -> out = Ok(RoundTrip(Whole(q, n), o)) [] r = "bad" -> out = Bad [] r = "odd" -> TRUE
Read == Chosen => \A strict \in BOOLEAN, m \in 2..n + 2 : Is(Outcome(Text(m, <<>>), strict), Reads(q, m, n, "count", strict, o))
Damaged == Chosen => \A strict \in BOOLEAN, dam \in {"blank", "tab", "step"} :
             (Form(q) \in {"table", "list", "fields"} => Is(Outcome(Text(n, Before(dam)), strict), Reads(q, n, n, dam, strict, o)))
Cell == (Chosen /\ Form(q) \in {"inline", "table"}) =>
          LET r == Runs(q, n, o)  t == Unroll([r EXCEPT !.odd = @ \o <<o.d, 49>>], q, n, <<>>) IN
          \A strict \in BOOLEAN : Is(Outcome(t, strict), Reads(q, n, n, "cell", strict, o))
Parts == Chosen => LET w == RoundTrip(Whole([q EXCEPT !.inner = FALSE], n), o)
             want == [i \in 1..n |-> Part(q, o, i = q.p + 1)] IN
  CASE q.shape = "array" -> w.a = want
    [] q.shape = "fields" -> w.v = want
    [] OTHER -> TRUE
Digits == (Chosen /\ q.shape = "fields") => DigitsTotal(n * 37, 0, 1) = Len(Flat([i \in 1..n * 37 |-> IntText(i - 1)]))
=============================================================================
