------------------------------- MODULE MCLines -------------------------------
(* All documents of up to Max lines over an alphabet of lines.  The state is   *)
(* the document so far together with the decoder machine in both modes; a      *)
(* step appends one line.  Every document visited is printed with the outcome  *)
(* of each mode, to be replayed against the library.                           *)
EXTENDS ToonEncode, ToonDecode, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MCCFG)
Bodies == Cfg.bodies        \* texts
Indents == Cfg.indents      \* columns
Max == Cfg.max
N == Cfg.n
Ex == Cfg.ex
Prefix == Cfg.prefix        \* lines every document starts with

OS == [strict |-> TRUE, n |-> N, ex |-> Ex, fl |-> <<>>]
OL == [strict |-> FALSE, n |-> N, ex |-> Ex, fl |-> <<>>]

VARIABLES lines, s, l
vars == <<lines, s, l>>
\* The strict machine looks at a line's layout when it arrives.
StrictStep(st, line) ==
  IF st.r \in {"run", "odd"} /\ BadLayout(line, OS) THEN [st EXCEPT !.r = "bad"] ELSE DecStep(st, line, OS)
Init == /\ lines = Prefix
        /\ s = DecRun(DecInit(Prefix, OS), Prefix, 1, OS)
        /\ l = DecRun(DecInit(Prefix, OL), Prefix, 1, OL)
AddLine(ind, body) ==
  LET line == (IF body = <<>> THEN <<>> ELSE Spaces(ind)) \o body IN
  /\ lines' = Append(lines, line)
  /\ s' = StrictStep(s, line)
  /\ l' = DecStep(l, line, OL)
Next == /\ Len(lines) < Max
        /\ "run" \in {s.r, l.r}
        /\ \E i \in 1..Len(Indents), b \in 1..Len(Bodies) :
             /\ Bodies[b] # <<>> \/ i = 1
             /\ AddLine(Indents[i], Bodies[b])
Spec == Init /\ [][Next]_vars

S == DecFinish(s, OS)
L == DecFinish(l, OL)
(* ------------------------------ properties -------------------------------- *)
\* Strict mode only removes documents.
StrictOnlyRemoves == S.r = "ok" => (L.r = "odd" \/ (L.r = "ok" /\ L.v = S.v))
\* The step-by-step machine decides what the whole-document one does.
Agrees == S.r = Decode(lines, OS).r /\ L.r = Decode(lines, OL).r
\* Re-encoding an accepted document gives its canonical form: it denotes the
\* same value and is its own canonical form.
EO == [d |-> COMMA, n |-> N, fold |-> FALSE, fd |-> -1]
PO == [OS EXCEPT !.ex = FALSE]
FixPoint == L.r = "ok" =>
  LET t == Encode(L.v, EO)
      v2 == RoundTrip(L.v, EO)
      d == Decode(t, PO)
  IN d.r = "ok" /\ d.v = v2 /\ Encode(v2, EO) = t
\* Without expansion nothing but "odd" separates the outcomes from a value or
\* a rejection.
Outcomes == S.r \in {"ok", "bad", "odd"} /\ L.r \in {"ok", "bad", "odd"}

Out(r) == IF r.r = "ok" THEN r ELSE [r |-> r.r]
Emit == PrintT("@G " \o ToJson([lines |-> lines, s |-> Out(S), l |-> Out(L)]))
=============================================================================
