------------------------------- MODULE MCJson --------------------------------
(* All sequences of up to Max JSON tokens: every text built from them is        *)
(* printed with what it denotes and how the tools answer.                       *)
EXTENDS ToonTools, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MCCFG)
Tokens == Cfg.tokens
Max == Cfg.max
Pre == Cfg.pre
Opts == Cfg.opts
VARIABLES t, n
Init == t = Pre /\ n = 0
Next == n < Max /\ n' = n + 1 /\ \E i \in 1..Len(Tokens) : t' = t \o Tokens[i]
Spec == Init /\ [][Next]_<<t, n>>
J == ParseJson(t, <<>>)
Dec(lines) == Decode(lines, [strict |-> TRUE, n |-> 2, ex |-> FALSE, fl |-> <<>>])
\* Printing a value and reading the text gives the value, in both layouts.
PrintRead == J.r = "ok" => \A p \in BOOLEAN :
               LET x == JText(J.v, p, 0) IN ParseJson(x, <<>>) = J /\ Prints(x, J.v, p, <<>>)
\* JSON to TOON and back is the same value (object order aside, which tables may change).
ThereAndBack == J.r = "ok" => \A j \in 1..Len(Opts) : Dec(Encode(J.v, Opts[j])) = Ok(RoundTrip(J.v, Opts[j]))
\* The layouts differ in blanks only.
Layouts == (J.r = "ok" /\ J.v.t \in {"arr", "obj"}) => (JText(J.v, TRUE, 0) = JText(J.v, FALSE, 0)) = (J.v \in {EmptyObj, Arr(<<>>)})
Emit == PrintT("@G " \o ToJson(
  IF J.r = "ok" THEN [text |-> t, r |-> "ok", v |-> J.v, e |-> [j \in 1..Len(Opts) |-> Encode(J.v, Opts[j])],
                      back |-> [p \in 1..2 |-> JText(Dec(Encode(J.v, Opts[1])).v, p = 2, 0)]]
  ELSE [text |-> t, r |-> J.r]))
=============================================================================
