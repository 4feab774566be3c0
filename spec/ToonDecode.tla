----------------------------- MODULE ToonDecode -----------------------------
(* The decoder as a machine over lines.  One step consumes one line.  Its     *)
(* state is a stack of open contexts (innermost first) that says what the     *)
(* next line may continue:                                                    *)
(*   obj    an object whose fields stand at exactly column `ind`              *)
(*   list   an array of "- " items at column `ind`; n declared (-1: none)     *)
(*   table  rows at column `ind`; n declared, delimiter d, fields f           *)
(*   pend   a field `key:` whose value, if any, stands deeper than `thr`      *)
(*   plist  a header announcing n > 0 items, deeper than `thr`                *)
(*   ptable a header announcing n > 0 rows, deeper than `thr`                 *)
(*                                                                            *)
(* Three outcomes: "ok" with the denoted value; "bad": the document must be   *)
(* rejected; "odd": TOON leaves the document open (the decoder may reject it  *)
(* or read it as it likes, but must still terminate with one of the two).     *)
(*                                                                            *)
(* Options: strict, n (indent unit), ex (path expansion), fl (float oracle).  *)
EXTENDS ToonPaths

(* -------------------------------- lines ---------------------------------- *)

IsBlank(l) == \A i \in 1..Len(l) : l[i] = SP
TabIndented(l) == LET i == SkipSet(l, 1, {SP}) IN i <= Len(l) /\ l[i] = TAB

\* key[N delim?]{fields}? as found before the colon.
RECURSIVE ReadKeys(_, _, _)
ReadKeys(toks, i, acc) ==
  IF i > Len(toks) THEN Ok(acc)
  ELSE LET r == ReadKey(toks[i]) IN
       IF r.r # "ok" THEN r ELSE ReadKeys(toks, i + 1, Append(acc, r.v))

DelimSet == {COMMA, TAB, PIPE}
\* Some delimiter other than d stands outside quotes in s, and d does not.
OtherDelim(s, d) == FindOutside(s, {d}) = 0 /\ FindOutside(s, DelimSet \ {d}) # 0

NoKey == [s |-> <<>>, q |-> FALSE]
ReadHeader(kp, strict) ==
  LET b == FindOutside(kp, {LBRK})
      keyt == SubSeq(kp, 1, b - 1)
      e == DigitsEnd(kp, b + 1)                       \* last digit of N
      hasD == e + 1 <= Len(kp) /\ kp[e + 1] \in {TAB, PIPE}
      c == IF hasD THEN e + 2 ELSE e + 1              \* the closing bracket
      d == IF hasD THEN kp[e + 1] ELSE COMMA
      rest == From(kp, c + 1)
      hasF == rest # <<>>
      fl == SubSeq(rest, 2, Len(rest) - 1)
      K == IF keyt = <<>> THEN Ok(NoKey) ELSE ReadKey(keyt)
  IN IF \/ e < b + 1 \/ e > b + 18 \/ (kp[b + 1] = 48 /\ e > b + 1)
        \/ c > Len(kp) \/ kp[c] # RBRK
     THEN Odd
     ELSE IF K.r # "ok" THEN K
     ELSE LET n == IF e - b > 9 THEN 2000000000 ELSE DigitsVal(DigitVals(kp, b + 1, e), 0)   \* no text has as many
              h == [key |-> K.v, n |-> n, d |-> d, tab |-> hasF, f |-> <<>>] IN
       IF ~hasF THEN Ok(h)
       ELSE IF Len(rest) < 3 \/ rest[1] # LBRC \/ FindOutside(rest, {RBRC}) # Len(rest) THEN Odd
       ELSE IF FindOutside(fl, DelimSet \ {d}) # 0
            THEN IF strict /\ keyt # <<>> /\ OtherDelim(fl, d) THEN Bad ELSE Odd
       ELSE LET F == ReadKeys(SplitUnq(fl, d), 1, <<>>) IN
            IF F.r # "ok" THEN F
            ELSE IF Cardinality({F.v[i].s : i \in 1..Len(F.v)}) # Len(F.v) THEN Odd
            ELSE Ok([h EXCEPT !.f = F.v])

\* The array a header line introduces: either complete, or awaiting lines.
RECURSIVE ReadAll(_, _, _, _)
ReadAll(toks, i, fl, acc) ==
  IF i > Len(toks) THEN Ok(acc)
  ELSE LET r == ReadScalar(toks[i], fl) IN
       IF r.r # "ok" THEN r ELSE ReadAll(toks, i + 1, fl, Append(acc, r.v))

StripSp(s) == TrimSet(s, {SP})
\* [go: "done", v] | [go: "list"] | [go: "table"], wrapped in Ok/Bad/Odd.
ReadArray(h, after, o) ==
  LET t == StripSp(after)
      fl == o.fl IN
  IF h.tab THEN IF t # <<>> THEN (IF o.strict /\ Trim(t) # <<>> THEN Bad ELSE Odd)
                ELSE IF h.n = 0 THEN Ok([go |-> "done", v |-> Arr(<<>>)])
                ELSE Ok([go |-> "table"])
  ELSE IF t = <<>> THEN IF h.n = 0 THEN Ok([go |-> "done", v |-> Arr(<<>>)]) ELSE Ok([go |-> "list"])
  ELSE IF t[1] = TAB \/ (h.d = TAB /\ t[Len(t)] = TAB) THEN Odd
  ELSE LET toks == SplitUnq(t, h.d)
           r == ReadAll(toks, 1, fl, <<>>)
       IN IF r.r = "bad" THEN Bad
          ELSE IF Len(toks) # h.n THEN Bad
          ELSE IF r.r # "ok" THEN r
          ELSE Ok([go |-> "done", v |-> Arr(r.v)])

\* What a line body is.
\*   item (x: text after the hyphen, bare: no text), field, header, scalar, odd, bad
Body(b, o) ==
  IF b = <<DASH>> THEN [c |-> "item", bare |-> TRUE, x |-> <<>>]
  ELSE IF Len(b) >= 2 /\ b[1] = DASH /\ b[2] = SP THEN [c |-> "item", bare |-> FALSE, x |-> From(b, 3)]
  ELSE LET p == FindOutside(b, {COLON}) IN
    IF b[1] = AT THEN [c |-> "at", plain |-> p = 0]
    ELSE IF p = 0 THEN [c |-> "scalar"]
    ELSE LET kp == SubSeq(b, 1, p - 1)
             after == From(b, p + 1) IN
      IF FindOutside(kp, {LBRK}) # 0
      THEN LET h == ReadHeader(kp, o.strict) IN
           IF h.r # "ok" THEN [c |-> h.r]
           ELSE LET a == ReadArray(h.v, after, o) IN
                IF a.r # "ok" THEN [c |-> a.r] ELSE [c |-> "header", h |-> h.v, a |-> a.v]
      ELSE LET k == ReadKey(kp) IN
           IF k.r # "ok" THEN [c |-> k.r]
           ELSE IF Trim(after) = <<>> THEN [c |-> "field", key |-> k.v, open |-> TRUE]
           ELSE LET v == ReadScalar(Trim(after), o.fl) IN
                IF v.r # "ok" THEN [c |-> v.r]
                ELSE [c |-> "field", key |-> k.v, open |-> FALSE, v |-> v.v]

(* ------------------------------- contexts -------------------------------- *)

ObjC(ind) == [c |-> "obj", ind |-> ind, k |-> <<>>, v |-> <<>>]
\* flush: the array's lines stand in the column of the object it is a field of,
\* so that any other line there goes on with that object.
ListC(ind, n, flush) == [c |-> "list", ind |-> ind, n |-> n, flush |-> flush, a |-> <<>>]
TableC(ind, p, flush) == [c |-> "table", ind |-> ind, n |-> p.n, d |-> p.d, f |-> p.f, flush |-> flush, a |-> <<>>]
\* own: the column of the object the key stands in (below it a line cannot
\* be a child); between thr and own only odd layouts put array lines.
Pend(own) == [c |-> "pend", thr |-> own]
PList(thr, own, n) == [c |-> "plist", thr |-> thr, own |-> own, n |-> n]
PTable(thr, own, h) == [c |-> "ptable", thr |-> thr, own |-> own, n |-> h.n, d |-> h.d, f |-> h.f]

\* Give a finished value to the innermost open context.
Deliver(stack, v) ==
  LET top == Head(stack) IN
  CASE top.c = "obj" -> <<[top EXCEPT !.v = Append(@, v)]>> \o Tail(stack)
    [] top.c \in {"list", "table"} -> <<[top EXCEPT !.a = Append(@, v)]>> \o Tail(stack)
    [] top.c = "root" -> <<[c |-> "end", v |-> v, at |-> FALSE]>>

\* Close the innermost context.
Close(stack) ==
  LET t == Head(stack)  rest == Tail(stack) IN
  CASE t.c = "obj" -> Ok(Deliver(rest, [t |-> "obj", k |-> t.k, v |-> t.v]))
    [] t.c = "pend" -> Ok(Deliver(rest, [t |-> "obj", k |-> <<>>, v |-> <<>>]))
    [] t.c \in {"list", "table"} -> IF t.n >= 0 /\ Len(t.a) # t.n THEN Bad ELSE Ok(Deliver(rest, Arr(t.a)))
    [] t.c \in {"plist", "ptable"} -> Bad

\* Add field (key, value) or an awaited value to the object on top.
AddKey(stack, key) == <<[Head(stack) EXCEPT !.k = Append(@, key)]>> \o Tail(stack)

\* What a header leaves on the stack.  thr: array lines stand deeper than it.
AfterHeader(stack, b, thr, own) ==
  CASE b.a.go = "done" -> Deliver(stack, b.a.v)
    [] b.a.go = "list" -> <<PList(thr, own, b.h.n)>> \o stack
    [] b.a.go = "table" -> <<PTable(thr, own, b.h)>> \o stack

\* A field line b for the object on top; thr as above.
PutField(stack, b, thr) ==
  LET own == Head(stack).ind IN
  IF b.c = "header" THEN AfterHeader(AddKey(stack, b.h.key), b, thr, own)
  ELSE IF b.open THEN <<Pend(own)>> \o AddKey(stack, b.key)
  ELSE Deliver(AddKey(stack, b.key), b.v)

\* An item line for the list on top.
PutItem(stack, b, o) ==
  LET L == Head(stack).ind IN
  IF b.bare THEN Ok(<<[c |-> "bare", thr |-> L]>> \o stack)
  ELSE IF Trim(b.x) = <<>> THEN Odd
  ELSE LET x == Body(b.x, o) IN
    CASE x.c \in {"odd", "bad"} -> [r |-> x.c]
      [] x.c = "item" -> Odd
      [] x.c = "at" /\ ~x.plain -> Odd
      [] x.c \in {"scalar", "at"} ->
           LET v == ReadScalar(Trim(b.x), o.fl) IN
           IF v.r # "ok" THEN v ELSE Ok(Deliver(stack, v.v))
      [] x.c = "header" ->
           IF x.h.key = NoKey THEN Ok(AfterHeader(stack, x, L, L))
           ELSE Ok(PutField(<<ObjC(L + o.n)>> \o stack, x, L))
      [] x.c = "field" -> Ok(PutField(<<ObjC(L + o.n)>> \o stack, x, L))

\* A line that fits nowhere.
Misplaced(o) == IF o.strict THEN Bad ELSE Odd

PutRow(stack, body, o) ==
  LET t == Head(stack)
      toks == SplitUnq(body, t.d)
      r == ReadAll(toks, 1, o.fl, <<>>) IN
  IF r.r = "bad" THEN Bad
  ELSE IF Len(toks) # Len(t.f) THEN Bad
  ELSE IF r.r # "ok" THEN r
  ELSE Ok(Deliver(stack, [t |-> "obj", k |-> t.f, v |-> r.v]))

(* -------------------------------- the step -------------------------------- *)
\* Place one non-blank line, closing contexts until one accepts it.
\* gap: a blank line precedes it.
\* An array that is itself an item of the list with its hyphens in column ind.
OfItem(rest, ind) == Head(rest).c = "list" /\ Head(rest).ind = ind
InArray(stack) == \E i \in 1..Len(stack) : stack[i].c \in {"list", "table"}
GapCheck(r, o, gap, next) ==
  IF ~gap \/ ~o.strict \/ r.r # "ok" THEN r
  ELSE IF next THEN Bad ELSE IF InArray(r.v) THEN Odd ELSE r

RECURSIVE Place(_, _, _, _, _, _)
Place(stack, ind, body, b, o, gap) ==
  LET t == Head(stack)  rest == Tail(stack)
      closed == Close(stack)
      pop == IF closed.r # "ok" THEN closed ELSE Place(closed.v, ind, body, b, o, gap)
      start(frame) == Place(<<frame>> \o rest, ind, body, b, o, gap)
      isRow == b.c = "scalar" \/ (b.c = "at" /\ b.plain)
  IN
  CASE t.c = "end" -> IF t.at THEN Odd ELSE Misplaced(o)
    [] t.c = "root" ->
         IF ind # 0 THEN Odd
         ELSE (CASE b.c \in {"odd", "bad"} -> [r |-> b.c]
                [] b.c = "item" -> Place(<<ListC(0, -1, FALSE)>> \o stack, ind, body, b, o, gap)
                [] b.c = "header" /\ b.h.key = NoKey -> GapCheck(Ok(AfterHeader(stack, b, 0, 0)), o, gap, FALSE)
                [] b.c \in {"header", "field"} -> Place(<<ObjC(0)>> \o stack, ind, body, b, o, gap)
                [] b.c = "at" ->    \* one line: a string; more lines: an old table form
                     IF b.plain THEN Ok(<<[c |-> "end", v |-> Str(Trim(body)), at |-> TRUE]>>) ELSE Odd
                [] b.c = "scalar" ->
                     IF ContainsAny(body, {LBRK}) /\ body[1] # QT THEN Odd
                     ELSE LET v == ReadScalar(Trim(body), o.fl) IN
                          IF v.r # "ok" THEN v ELSE Ok(Deliver(stack, v.v)))
    [] t.c = "obj" ->
         IF ind < t.ind THEN pop
         ELSE IF ind > t.ind THEN Misplaced(o)
         ELSE (CASE b.c \in {"odd", "bad"} -> [r |-> b.c]
                [] b.c = "header" /\ b.h.key = NoKey -> Misplaced(o)
                [] b.c \in {"header", "field"} ->
                     GapCheck(Ok(PutField(stack, b, t.ind)), o, gap, FALSE)
                [] OTHER -> IF b.c # "item" /\ ContainsAny(body, {LBRK, AT}) THEN Odd ELSE Misplaced(o))
    [] t.c = "list" ->
         IF ind < t.ind THEN pop
         ELSE IF ind = t.ind /\ b.c = "item" THEN GapCheck(PutItem(stack, b, o), o, gap, t.a # <<>>)
         ELSE IF closed.r # "ok" THEN Bad ELSE IF t.flush /\ ind = t.ind THEN pop ELSE Misplaced(o)
    [] t.c = "table" ->
         IF ind < t.ind THEN pop
         ELSE IF ind = t.ind /\ isRow THEN GapCheck(PutRow(stack, body, o), o, gap, t.a # <<>>)
         ELSE IF b.c = "at" THEN Odd
         ELSE IF closed.r # "ok" THEN Bad ELSE IF t.flush /\ ind = t.ind THEN pop ELSE Misplaced(o)
    [] t.c = "bare" ->      \* a bare hyphen: {} unless something stands deeper
         IF ind >= t.thr + o.n
         THEN (CASE b.c \in {"odd", "bad"} -> [r |-> b.c]
                [] b.c = "item" -> start(ListC(ind, -1, FALSE))
                [] b.c = "header" /\ b.h.key = NoKey -> GapCheck(Ok(AfterHeader(rest, b, ind, ind)), o, gap, FALSE)
                [] b.c \in {"header", "field"} -> start(ObjC(ind))
                [] b.c = "at" -> Odd
                [] b.c = "scalar" ->
                     IF ContainsAny(body, {LBRK}) THEN Odd
                     ELSE LET v == ReadScalar(Trim(body), o.fl) IN
                          IF v.r # "ok" THEN v ELSE GapCheck(Ok(Deliver(rest, v.v)), o, gap, FALSE))
         ELSE IF ind > t.thr THEN Odd
         ELSE Place(Deliver(rest, [t |-> "obj", k |-> <<>>, v |-> <<>>]), ind, body, b, o, gap)
    [] t.c = "pend" ->
         IF ind = t.thr /\ b.c = "item" THEN start(ListC(ind, -1, TRUE))
         ELSE IF ind <= t.thr THEN pop
         ELSE (CASE b.c \in {"odd", "bad"} -> [r |-> b.c]
                [] b.c = "item" -> start(ListC(ind, -1, FALSE))
                [] b.c = "at" -> Odd
                [] b.c = "header" /\ b.h.key = NoKey -> GapCheck(Ok(AfterHeader(rest, b, ind, ind)), o, gap, FALSE)
                [] b.c \in {"header", "field"} -> start(ObjC(ind))
                [] b.c = "scalar" -> IF ContainsAny(body, {LBRK, AT}) THEN Odd ELSE Bad)
    [] t.c = "plist" ->
         IF ind = t.thr /\ b.c = "item" /\ t.thr = t.own /\ Head(rest).c = "root" THEN Odd
         ELSE IF ind = t.thr /\ b.c = "item" /\ t.thr = t.own /\ ~OfItem(rest, ind) THEN start(ListC(ind, t.n, TRUE))
         ELSE IF ind <= t.thr THEN Bad
         ELSE IF ind <= t.own THEN (IF b.c = "item" THEN Odd ELSE Bad)
         ELSE IF b.c = "item" THEN start(ListC(ind, t.n, FALSE))
         ELSE Bad
    [] t.c = "ptable" ->
         IF ind <= t.thr THEN (IF ~(t.thr = t.own /\ ind = t.thr /\ isRow) THEN Bad
                               ELSE IF Head(rest).c = "root" \/ OfItem(rest, ind) THEN Odd
                               ELSE start(TableC(ind, t, TRUE)))
         ELSE IF ind <= t.own THEN (IF isRow \/ b.c = "at" THEN Odd ELSE Bad)
         ELSE IF isRow THEN start(TableC(ind, t, FALSE))
         ELSE IF b.c = "at" THEN Odd ELSE Bad

\* Machine state: [r: "run"|"bad"|"odd"|"ok", stack, gap, open, v]; open: the
\* columns of the lines the next one may be nested in, outermost first.
BadLayout(l, o) == ~IsBlank(l) /\ (TabIndented(l) \/ LeadingSpaces(l) % o.n # 0)
DecInit(lines, o) ==
  [r |-> IF o.strict /\ \E i \in 1..Len(lines) : BadLayout(lines[i], o) THEN "bad" ELSE "run",
   stack |-> <<[c |-> "root"]>>, gap |-> FALSE, open |-> <<>>]

DecStep(s, line, o) ==
  IF s.r # "run" THEN s
  ELSE IF IsBlank(line) THEN [s EXCEPT !.gap = TRUE]
  ELSE IF line[Len(line)] = CR THEN [s EXCEPT !.r = "odd"]
  ELSE LET ind == LeadingSpaces(line)
           body == From(line, ind + 1)
           open == Append(SelectSeq(s.open, LAMBDA col : col < ind), ind)
           p == IF Len(open) > MaxDepth THEN Odd
                ELSE Place(s.stack, ind, body, Body(body, o), o, s.gap)
       IN IF p.r = "ok" THEN [s EXCEPT !.stack = p.v, !.gap = FALSE, !.open = open]
          ELSE [s EXCEPT !.r = p.r]

RECURSIVE CloseAll(_)
CloseAll(stack) ==
  LET t == Head(stack) IN
  IF t.c = "end" THEN Ok(t.v)
  ELSE IF t.c = "root" THEN Ok([t |-> "obj", k |-> <<>>, v |-> <<>>])
  ELSE IF t.c = "bare" THEN CloseAll(Deliver(Tail(stack), [t |-> "obj", k |-> <<>>, v |-> <<>>]))
  ELSE LET c == Close(stack) IN IF c.r # "ok" THEN c ELSE CloseAll(c.v)

\* The outcome once all lines are consumed: Ok(value) / Bad / Odd.
DecFinish(s, o) ==
  IF s.r # "run" THEN [r |-> s.r]
  ELSE LET c == CloseAll(s.stack) IN
       IF c.r # "ok" THEN c
       ELSE IF o.ex THEN Expand(c.v, o.strict)
       ELSE Ok(Plain(c.v))

RECURSIVE DecRun(_, _, _, _)
DecRun(s, lines, i, o) == IF i > Len(lines) THEN s ELSE DecRun(DecStep(s, lines[i], o), lines, i + 1, o)
Decode(lines, o) == DecFinish(DecRun(DecInit(lines, o), lines, 1, o), o)
=============================================================================
