-------------------------------- MODULE MCNums -------------------------------
(* Decimal numbers: sign, up to Max digits, exponent.  Each is printed with its *)
(* canonical text; writing and reading it is the identity.                      *)
EXTENDS ToonEncode, ToonDecode, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MCCFG)
Digits == Cfg.digits
Max == Cfg.max
Lo == Cfg.lo
Hi == Cfg.hi
VARIABLES neg, d, e
vars == <<neg, d, e>>
Init == neg \in BOOLEAN /\ d = <<>> /\ e \in Lo..Hi
Next == Len(d) < Max /\ \E i \in 1..Len(Digits) : d' = Append(d, Digits[i]) /\ UNCHANGED <<neg, e>>
V == Num(neg, d, e)
Text == NumText(V)
Plain10 == \A i \in 1..Len(Text) : IsDigit(Text[i]) \/ Text[i] \in {DOT, DASH}
Canonical ==
  /\ Plain10
  /\ ParseNum(Text).ok
  /\ Contains(Text, DOT) => Text[Len(Text)] # 48
Back == LET r == ReadScalar(Text, <<>>) IN
        r.r = "ok" => r.v = V    \* beyond 15 digits the oracle decides
Emit == PrintT("@G " \o ToJson([v |-> V, text |-> Text]))
=============================================================================
