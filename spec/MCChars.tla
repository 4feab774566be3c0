------------------------------- MODULE MCChars -------------------------------
(* All texts of up to Max characters over an alphabet, placed in every position *)
(* a token, string or key can take.  kind "str": the text is a string value     *)
(* or key to be written; kind "tok": it is a token to be read; kind "doc": it   *)
(* is a whole document.                                                         *)
EXTENDS ToonEncode, ToonDecode, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MCCFG)
Alphabet == Cfg.alphabet
Max == Cfg.max
Kind == Cfg.kind
Pre == Cfg.pre              \* the texts start with this
Delims == Cfg.delims
VARIABLE t
Init == t = Pre
Next == Len(t) < Max + Len(Pre) /\ \E i \in 1..Len(Alphabet) : t' = Append(t, Alphabet[i])
Spec == Init /\ [][Next]_t

(* --------------------------- strings and keys ------------------------------ *)
One == [t |-> "num", neg |-> FALSE, d |-> <<1>>, e |-> 0]
ka == <<97>>  kb == <<98>>
S == Str(t)
Positions == << S, Obj(<<ka>>, <<S>>), Obj(<<ka>>, <<Arr(<<S, One>>)>>), Arr(<<One, S>>),
   Obj(<<ka>>, <<Arr(<<S, Arr(<<>>)>>)>>),
   Obj(<<ka>>, <<Arr(<<Obj(<<ka, kb>>, <<One, S>>)>>)>>),
   Obj(<<ka>>, <<Arr(<<Obj(<<ka, kb>>, <<S, Arr(<<S>>)>>)>>)>>),
   Obj(<<t>>, <<One>>), Obj(<<t>>, <<Arr(<<One>>)>>), Obj(<<ka>>, <<Obj(<<t>>, <<S>>)>>),
   Obj(<<ka>>, <<Arr(<<Obj(<<t>>, <<One>>)>>)>>),
   Obj(<<ka>>, <<Arr(<<Obj(<<t>>, <<Obj(<<>>, <<>>)>>), Arr(<<>>)>>)>>) >>
EO(d) == [d |-> d, n |-> 2, fold |-> FALSE, fd |-> -1]
DO(strict) == [strict |-> strict, n |-> 2, ex |-> FALSE, fl |-> <<>>]
StringsSurvive == Kind = "str" => \A p \in 1..Len(Positions), j \in 1..Len(Delims) :
  LET e == Encode(Positions[p], EO(Delims[j])) IN
  \A strict \in BOOLEAN : Decode(e, DO(strict)) = Ok(Positions[p])
\* A bare string reads back as a string; quoting is not used without need.
EmitStr == Kind = "str" => PrintT("@G " \o ToJson([
   e |-> [p \in 1..Len(Positions) |-> [v |-> Positions[p],
          e |-> [j \in 1..Len(Delims) |-> Encode(Positions[p], EO(Delims[j]))]]]]))

(* --------------------------------- tokens ---------------------------------- *)
Docs == << <<t>>, <<(<<97,58,32>>) \o t>>, <<(<<97,91,49,93,58,32>>) \o t>>,
   <<(<<97,91,50,93,58,32,120,44>>) \o t>>,
   <<(<<97,91,50,124,93,58,32>>) \o t \o <<124,120>> >>,
   << <<97,91,49,93,58>>, (<<32,32,45,32>>) \o t>>,
   << <<97,91,49,93,123,120,44,121,125,58>>, (<<32,32>>) \o t \o <<44,120>> >>,
   << <<97,91,49,93,58>>, (<<32,32,45,32,120,58,32>>) \o t>> >>
Out(r) == IF r.r = "ok" THEN r ELSE [r |-> r.r]
\* A token means the same in every position (where it is one token at all).
TokenSame == Kind = "tok" /\ t # <<>> =>
  LET a == Decode(Docs[2], DO(FALSE))
      c == Decode(Docs[8], DO(FALSE)) IN
  (a.r = "ok" /\ c.r = "ok") => c.v.v[1].a[1].v[1] = a.v.v[1]
EmitTok == Kind = "tok" => PrintT("@G " \o ToJson([ d |-> [p \in 1..Len(Docs) |->
   [lines |-> Docs[p], s |-> Out(Decode(Docs[p], DO(TRUE))), l |-> Out(Decode(Docs[p], DO(FALSE)))]]]))

(* -------------------------------- documents -------------------------------- *)
Lines == IF t = <<>> THEN <<>> ELSE SplitAll(t, LF)
DocModes == Kind = "doc" => LET a == Decode(Lines, DO(TRUE))  b == Decode(Lines, DO(FALSE)) IN
   a.r = "ok" => (b.r = "odd" \/ b = a)
EmitDoc == Kind = "doc" => PrintT("@G " \o ToJson([lines |-> Lines, s |-> Out(Decode(Lines, DO(TRUE))),
   l |-> Out(Decode(Lines, DO(FALSE)))]))
=============================================================================
