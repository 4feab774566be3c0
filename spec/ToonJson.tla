------------------------------ MODULE ToonJson -------------------------------
(* JSON text (RFC 8259): what a text denotes, and the two layouts the command   *)
(* line tool and the WebAssembly functions print.                              *)
EXTENDS ToonScalar

JWs == {SP, TAB, LF, CR}
JSkip(s, i) == SkipSet(s, i, JWs)
At(s, i, c) == i <= Len(s) /\ s[i] = c

(* -------------------------------- reading --------------------------------- *)
(* Results: [r |-> "ok", v, p] (p: the next position), Bad or Odd.             *)
JOk(v, p) == [r |-> "ok", v |-> v, p |-> p]

HighSur(u) == u >= 55296 /\ u <= 56319
LowSur(u) == u >= 56320 /\ u <= 57343
\* The four hex digits at i..i+3, -1 if there are none.
Hex4(s, i) ==
  IF i + 3 > Len(s) THEN -1
  ELSE LET h == [j \in 1..4 |-> HexVal(s[i + j - 1])] IN
       IF \E j \in 1..4 : h[j] < 0 THEN -1
       ELSE ((h[1] * 16 + h[2]) * 16 + h[3]) * 16 + h[4]
RECURSIVE JUnescape(_, _, _)
JUnescape(s, i, acc) ==
  IF i > Len(s) THEN Ok(acc)
  ELSE IF s[i] < 32 THEN Bad
  ELSE IF s[i] # BSL THEN JUnescape(s, i + 1, Append(acc, s[i]))
  ELSE IF i = Len(s) THEN Bad
  ELSE LET c == s[i + 1]
           one(x) == JUnescape(s, i + 2, Append(acc, x)) IN
    CASE c \in {QT, BSL, 47} -> one(c)
      [] c = 98 -> one(8)
      [] c = 102 -> one(12)
      [] c = 110 -> one(LF)
      [] c = 114 -> one(CR)
      [] c = 116 -> one(TAB)
      [] c = 117 ->
           LET u == Hex4(s, i + 2) IN
           IF u < 0 THEN Bad
           ELSE IF HighSur(u)
                THEN IF At(s, i + 6, BSL) /\ At(s, i + 7, 117) /\ LowSur(Hex4(s, i + 8))
                     THEN JUnescape(s, i + 12, Append(acc, 65536 + (u - 55296) * 1024 + (Hex4(s, i + 8) - 56320)))
                     ELSE Odd
           ELSE IF LowSur(u) THEN Odd
           ELSE JUnescape(s, i + 6, Append(acc, u))
      [] OTHER -> Bad
\* The string whose opening quote is at i.
JStr(s, i) ==
  LET q == CloseFrom(s, i + 1) IN
  IF q = 0 THEN Bad
  ELSE LET r == JUnescape(SubSeq(s, i + 1, q - 1), 1, <<>>) IN
       IF r.r = "ok" THEN JOk(r.v, q + 1) ELSE r

NumChars == (48..57) \cup {PLUS, DASH, DOT, 69, 101}
JNum(s, i, fl) ==
  LET e == SkipSet(s, i, NumChars)
      tok == SubSeq(s, i, e - 1)
      p == ParseNum(tok) IN
  IF ~p.ok THEN Bad
  ELSE LET n == NumOf(tok, p, fl) IN IF n.t = "unknown" THEN Odd ELSE JOk(n, e)
JWord(s, i, w, v) == IF i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w THEN JOk(v, i + Len(w)) ELSE Bad

\* Readers bound the nesting they accept.
DepthLimit == 126
RECURSIVE JValue(_, _, _, _), JElems(_, _, _, _, _), JMembers(_, _, _, _, _)
JValue(s, i, depth, fl) ==
  IF i > Len(s) THEN Bad
  ELSE LET c == s[i] IN
    CASE c = QT -> LET r == JStr(s, i) IN IF r.r = "ok" THEN JOk(Str(r.v), r.p) ELSE r
      [] c = LBRC -> IF depth > DepthLimit THEN Odd
                     ELSE LET j == JSkip(s, i + 1) IN
                          IF At(s, j, RBRC) THEN JOk(EmptyObj, j + 1) ELSE JMembers(s, j, EmptyObj, depth, fl)
      [] c = LBRK -> IF depth > DepthLimit THEN Odd
                     ELSE LET j == JSkip(s, i + 1) IN
                          IF At(s, j, RBRK) THEN JOk(Arr(<<>>), j + 1) ELSE JElems(s, j, <<>>, depth, fl)
      [] c = DASH \/ IsDigit(c) -> JNum(s, i, fl)
      [] c = 116 -> JWord(s, i, TRUEtxt, Bool(TRUE))
      [] c = 102 -> JWord(s, i, FALSEtxt, Bool(FALSE))
      [] c = 110 -> JWord(s, i, NULLtxt, Null)
      [] OTHER -> Bad
JElems(s, i, acc, depth, fl) ==
  LET r == JValue(s, i, depth + 1, fl) IN
  IF r.r # "ok" THEN r
  ELSE LET j == JSkip(s, r.p)  a == Append(acc, r.v) IN
       IF At(s, j, COMMA) THEN JElems(s, JSkip(s, j + 1), a, depth, fl)
       ELSE IF At(s, j, RBRK) THEN JOk(Arr(a), j + 1) ELSE Bad
\* A repeated key keeps its first place and takes the last value.
JMembers(s, i, o, depth, fl) ==
  IF ~At(s, i, QT) THEN Bad
  ELSE LET k == JStr(s, i) IN
  IF k.r # "ok" THEN k
  ELSE LET c == JSkip(s, k.p) IN
  IF ~At(s, c, COLON) THEN Bad
  ELSE LET r == JValue(s, JSkip(s, c + 1), depth + 1, fl) IN
  IF r.r # "ok" THEN r
  ELSE LET j == JSkip(s, r.p)  q == Put(o, k.v, r.v) IN
       IF At(s, j, COMMA) THEN JMembers(s, JSkip(s, j + 1), q, depth, fl)
       ELSE IF At(s, j, RBRC) THEN JOk(q, j + 1) ELSE Bad
ParseJson(s, fl) ==
  LET r == JValue(s, JSkip(s, 1), 0, fl) IN
  IF s # <<>> /\ s[1] = 65279 THEN Odd          \* a byte order mark
  ELSE IF r.r # "ok" THEN [r |-> r.r]
  ELSE IF JSkip(s, r.p) <= Len(s) THEN Bad ELSE Ok(r.v)

(* -------------------------------- writing --------------------------------- *)
LowHex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
JEsc(c) ==
  CASE c = QT -> <<BSL, QT>>
    [] c = BSL -> <<BSL, BSL>>
    [] c = 8 -> <<BSL, 98>>
    [] c = 12 -> <<BSL, 102>>
    [] c = LF -> <<BSL, 110>>
    [] c = CR -> <<BSL, 114>>
    [] c = TAB -> <<BSL, 116>>
    [] c < 32 /\ c \notin {8, 9, 10, 12, 13} -> <<BSL, 117, 48, 48, LowHex(c \div 16), LowHex(c % 16)>>
    [] OTHER -> <<c>>
RECURSIVE JEscFrom(_, _)
JEscFrom(s, i) == IF i > Len(s) THEN <<>> ELSE JEsc(s[i]) \o JEscFrom(s, i + 1)
JQuote(s) == <<QT>> \o (IF \E i \in 1..Len(s) : s[i] < 32 \/ s[i] \in {QT, BSL} THEN JEscFrom(s, 1) ELSE s) \o <<QT>>

\* Where a nested element's line starts, if the layout has lines.
Nl(pretty, ind) == IF pretty THEN <<LF>> \o Spaces(ind) ELSE <<>>
Sep(pretty) == IF pretty THEN <<COLON, SP>> ELSE <<COLON>>

RECURSIVE JText(_, _, _), JList(_, _, _, _, _)
JText(v, pretty, ind) ==
  CASE v.t = "str" -> JQuote(v.s)
    [] v.t = "arr" -> <<LBRK>> \o (IF v.a = <<>> THEN <<>> ELSE JList(<<>>, v.a, pretty, ind, 1) \o Nl(pretty, ind)) \o <<RBRK>>
    [] v.t = "obj" -> <<LBRC>> \o (IF v.k = <<>> THEN <<>> ELSE JList(v.k, v.v, pretty, ind, 1) \o Nl(pretty, ind)) \o <<RBRC>>
    [] v.t \in {"null", "bool", "num"} -> PrimText(v, COMMA)
JList(ks, vs, pretty, ind, i) ==
  IF i > Len(vs) THEN <<>>
  ELSE (IF i > 1 THEN <<COMMA>> ELSE <<>>) \o Nl(pretty, ind + 2)
       \o (IF ks = <<>> THEN <<>> ELSE JQuote(ks[i]) \o Sep(pretty))
       \o JText(vs[i], pretty, ind + 2) \o JList(ks, vs, pretty, ind, i + 1)

(* A printed text is this layout with any spelling of each number: the position *)
(* after the value v found at i, 0 if it is not there.                         *)
Lit(s, i, t) == IF i > 0 /\ i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t THEN i + Len(t) ELSE 0
RECURSIVE JMatch(_, _, _, _, _, _), JMatchList(_, _, _, _, _, _, _, _)
JMatch(s, i, v, pretty, ind, fl) ==
  IF i = 0 \/ i > Len(s) THEN 0
  ELSE CASE v.t = "num" -> LET r == JNum(s, i, fl) IN IF r.r = "ok" /\ r.v = v THEN r.p ELSE 0
    [] v.t = "arr" -> IF v.a = <<>> THEN Lit(s, i, <<LBRK, RBRK>>)
                      ELSE Lit(s, Lit(s, JMatchList(s, Lit(s, i, <<LBRK>>), <<>>, v.a, pretty, ind, 1, fl), Nl(pretty, ind)), <<RBRK>>)
    [] v.t = "obj" -> IF v.k = <<>> THEN Lit(s, i, <<LBRC, RBRC>>)
                      ELSE Lit(s, Lit(s, JMatchList(s, Lit(s, i, <<LBRC>>), v.k, v.v, pretty, ind, 1, fl), Nl(pretty, ind)), <<RBRC>>)
    [] OTHER -> Lit(s, i, JText(v, pretty, ind))
JMatchList(s, i, ks, vs, pretty, ind, n, fl) ==
  IF n > Len(vs) \/ i = 0 THEN i
  ELSE LET a == IF n > 1 THEN Lit(s, i, <<COMMA>>) ELSE i
           b == Lit(s, a, Nl(pretty, ind + 2))
           c == IF ks = <<>> THEN b ELSE Lit(s, b, JQuote(ks[n]) \o Sep(pretty))
       IN JMatchList(s, JMatch(s, c, vs[n], pretty, ind + 2, fl), ks, vs, pretty, ind, n + 1, fl)
Prints(s, v, pretty, fl) == JMatch(s, 1, v, pretty, 0, fl) = Len(s) + 1
=============================================================================
