------------------------------- MODULE MCValues ------------------------------
(* All values of up to Max nodes over given scalars and keys.  The state is a   *)
(* value under construction: a stack of open containers.  A step adds a         *)
(* scalar, opens a container or closes one; when the stack is empty again the   *)
(* value is complete, and is printed with its canonical text under every        *)
(* option set of the configuration, to be replayed against the library.         *)
EXTENDS ToonEncode, ToonDecode, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MCCFG)
Scalars == Cfg.scalars
Keys == Cfg.keys
Max == Cfg.max
Depth == Cfg.depth
Opts == Cfg.opts            \* sequence of encoder options
NoDots == Cfg.nodots        \* no key has a dot

VARIABLES st, n             \* open containers (innermost first); nodes so far
vars == <<st, n>>
\* An open container: [t, k, v]; v holds its elements.  The bottom is a pseudo
\* array that receives the root.
Bottom == [t |-> "root", k |-> <<>>, v |-> <<>>]
Init == st = <<Bottom>> /\ n = 0
Done == Len(st) = 1 /\ Len(st[1].v) = 1
Value == st[1].v[1]

Give(stack, v) == <<[Head(stack) EXCEPT !.v = Append(@, v)]>> \o Tail(stack)
\* The key under which the next element goes (objects only).
NextKeys(top) == IF top.t = "obj" THEN {k \in SeqRange(Keys) : k \notin SeqRange(top.k)} ELSE {<<>>}
WithKey(stack, k) == IF Head(stack).t = "obj" THEN <<[Head(stack) EXCEPT !.k = Append(@, k)]>> \o Tail(stack) ELSE stack
AddScalar == \E k \in NextKeys(Head(st)), i \in 1..Len(Scalars) :
               st' = Give(WithKey(st, k), Scalars[i])
Open == \E k \in NextKeys(Head(st)), t \in {"obj", "arr"} :
               st' = <<[t |-> t, k |-> <<>>, v |-> <<>>]>> \o WithKey(st, k)
Add == n < Max /\ n' = n + 1 /\ (AddScalar \/ (Len(st) <= Depth /\ Open))
CloseTop == /\ Len(st) > 1
         /\ LET t == Head(st) IN
            st' = Give(Tail(st), IF t.t = "obj" THEN Obj(t.k, t.v) ELSE Arr(t.v))
         /\ n' = n
Next == ~Done /\ (Add \/ CloseTop)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties -------------------------------- *)
DO(o, strict, ex) == [strict |-> strict, n |-> o.n, ex |-> ex, fl |-> <<>>]
\* The canonical text denotes the value, in both modes.
Lossless == Done => \A j \in 1..Len(Opts) :
  LET o == Opts[j]  t == Encode(Value, o) IN
  \A strict \in BOOLEAN : Decode(t, DO(o, strict, FALSE)) = Ok(RoundTrip(Value, o))
\* Folding then expanding is the identity when no key has a dot.
FoldExpand == (Done /\ NoDots) => \A j \in 1..Len(Opts) :
  LET o == Opts[j]  t == Encode(Value, o) IN
  o.fold => Decode(t, DO(o, TRUE, TRUE)) = Ok(RoundTrip(Value, [o EXCEPT !.fold = FALSE]))
\* Every indentation is a multiple of the unit, one deeper (two below a list
\* item's first field) at most, and no line ends in a blank.
Tidy == Done => \A j \in 1..Len(Opts) :
  LET o == Opts[j]  t == Encode(Value, o) IN
  \A i \in 1..Len(t) :
    /\ LeadingSpaces(t[i]) % o.n = 0
    /\ t[i] # <<>> => ~IsWs(t[i][Len(t[i])])
    /\ i > 1 => LeadingSpaces(t[i]) <= LeadingSpaces(t[i-1]) + 2 * o.n
\* A wrong declared length is always noticed.
Bump(line) ==
  LET b == FindOutside(line, {LBRK})
      e == DigitsEnd(line, b + 1)
      k == DigitsVal(DigitVals(line, b + 1, e), 0) IN
  SubSeq(line, 1, b) \o IntText(k + 1) \o From(line, e + 1)
Counted == Done => \A j \in 1..Len(Opts) :
  LET o == Opts[j]  t == Encode(Value, o) IN
  \A i \in 1..Len(t) :
    LET p == FindOutside(t[i], {LBRK}) IN
    p # 0 => Decode([t EXCEPT ![i] = Bump(t[i])], DO(o, FALSE, FALSE)).r = "bad"
\* The documents with one wrong length, to be replayed.
Bumped(o) == LET t == Encode(Value, o)
                 HasLen(i) == FindOutside(t[i], {LBRK}) # 0
                 I == SelectSeq([i \in 1..Len(t) |-> i], HasLen) IN
             [x \in 1..Len(I) |-> [t EXCEPT ![I[x]] = Bump(t[I[x]])]]
EmitBumped == Done => PrintT("@G " \o ToJson([b |-> [j \in 1..Len(Opts) |-> Bumped(Opts[j])]]))

Emit == Done => PrintT("@G " \o ToJson([v |-> Value,
          e |-> [j \in 1..Len(Opts) |-> Encode(Value, Opts[j])],
          rt |-> [j \in 1..Len(Opts) |-> RoundTrip(Value, Opts[j])]]))
=============================================================================
