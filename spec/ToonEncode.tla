----------------------------- MODULE ToonEncode -----------------------------
(* The encoder as a machine.  Its state is a stack of things still to be     *)
(* written; one step pops the top and writes exactly one line.               *)
(*                                                                           *)
(* Options o: o.d delimiter character, o.n indent width,                     *)
(*            o.fold key folding on/off, o.fd flatten depth (-1: unlimited). *)
EXTENDS ToonScalar

DelimSym(d) == IF d = COMMA THEN <<>> ELSE <<d>>
Bracket(n, d) == <<LBRK>> \o IntText(n) \o DelimSym(d) \o <<RBRK>>
Fields(ks, d) == <<LBRC>> \o Join([i \in 1..Len(ks) |-> KeyText(ks[i])], <<d>>) \o <<RBRC>>
Cells(vs, d) == Join([i \in 1..Len(vs) |-> PrimText(vs[i], d)], <<d>>)
ColonSp == <<COLON, SP>>
Hyphen == <<DASH, SP>>

\* An array is written as a table iff it is non-empty, all its elements are
\* objects with one common non-empty key set, and all their values are scalars.
IsTabular(a) ==
  /\ Len(a) > 0
  /\ \A i \in 1..Len(a) : a[i].t = "obj"
  /\ Len(a[1].k) > 0
  /\ LET ks == SeqRange(a[1].k) IN
     \A i \in 1..Len(a) : SeqRange(a[i].k) = ks /\ AllPrim(a[i].v)
RowOf(obj, ks) == [i \in 1..Len(ks) |-> obj.v[IndexOf(obj.k, ks[i])]]

(* ------------------------------ key folding ------------------------------ *)
\* The longest chain starting at the (already accepted) segments segs whose
\* last segment's value is the single-key object obj.
RECURSIVE FoldStep(_, _, _)
FoldStep(segs, obj, max) ==
  LET k == obj.k[1]  v == obj.v[1] IN
  IF ~IsIdent(k) THEN [segs |-> segs, v |-> obj]
  ELSE LET s2 == Append(segs, k) IN
       IF (max >= 0 /\ Len(s2) >= max) \/ v.t # "obj" \/ Len(v.k) # 1
       THEN [segs |-> s2, v |-> v]
       ELSE FoldStep(s2, v, max)

\* [folded, key, v]: what a field (key, v) becomes before it is written.
\*   "no"       written as it is;
\*   "yes"      written under the dotted key, nothing inside folded again;
\*   "clash"    a sibling already has the dotted key: this subtree stays unfolded.
Folding(key, v, o, sibs) ==
  IF ~o.fold \/ v.t # "obj" THEN [r |-> "no"]
  ELSE IF Len(v.k) # 1 \/ (o.fd >= 0 /\ o.fd < 2) \/ ~IsIdent(key) THEN [r |-> "no"]
  ELSE LET c == FoldStep(<<key>>, v, o.fd) IN
       IF Len(c.segs) < 2 THEN [r |-> "no"]
       ELSE LET fk == Join(c.segs, <<DOT>>) IN
            IF fk \in sibs THEN [r |-> "clash"] ELSE [r |-> "yes", key |-> fk, v |-> c.v]

(* ------------------------------- the machine ----------------------------- *)
\* Tasks.  dep is the depth of the line, f whether folding is still allowed.
FieldTask(k, v, dep, f, sibs) == [w |-> "field", k |-> k, v |-> v, dep |-> dep, f |-> f, sibs |-> sibs]
ItemTask(v, dep, f) == [w |-> "item", v |-> v, dep |-> dep, f |-> f]
RowTask(vs, dep) == [w |-> "row", v |-> vs, dep |-> dep]

FieldTasks(obj, from, dep, f) ==
  LET sibs == SeqRange(obj.k) IN
  [i \in 1..(Len(obj.k) - from + 1) |-> FieldTask(obj.k[from + i - 1], obj.v[from + i - 1], dep, f, sibs)]
ItemTasks(a, dep, f) == [i \in 1..Len(a) |-> ItemTask(a[i], dep, f)]
RowTasks(a, ks, dep) == [i \in 1..Len(a) |-> RowTask(RowOf(a[i], ks), dep)]

\* The text after the indentation, and the tasks that follow, for value v
\* introduced by `pre` (a key, a hyphen and key, or nothing), children at cd.
\* tab: tables are allowed here (not directly inside a list item).
Intro(pre, v, cd, f, o, tab) ==
  IF IsPrim(v) THEN [line |-> pre \o ColonSp \o PrimText(v, o.d), push |-> <<>>]
  ELSE IF v.t = "obj" THEN [line |-> pre \o <<COLON>>, push |-> FieldTasks(v, 1, cd, f)]
  ELSE LET a == v.a
           h == pre \o Bracket(Len(a), o.d) IN
       IF a = <<>> THEN [line |-> h \o <<COLON>>, push |-> <<>>]
       ELSE IF tab /\ IsTabular(a)
            THEN [line |-> h \o Fields(a[1].k, o.d) \o <<COLON>>, push |-> RowTasks(a, a[1].k, cd)]
       ELSE IF AllPrim(a) THEN [line |-> h \o ColonSp \o Cells(a, o.d), push |-> <<>>]
       ELSE [line |-> h \o <<COLON>>, push |-> ItemTasks(a, cd, f)]

FieldStep(t, o) ==
  LET fo == [o EXCEPT !.fold = t.f]
      r == Folding(t.k, t.v, fo, t.sibs) IN
  IF r.r = "yes" THEN Intro(r.key, r.v, t.dep + 1, FALSE, o, TRUE)
  ELSE Intro(KeyText(t.k), t.v, t.dep + 1, t.f /\ r.r # "clash", o, TRUE)

ItemStep(t, o) ==
  LET v == t.v IN
  IF IsPrim(v) THEN [line |-> Hyphen \o PrimText(v, o.d), push |-> <<>>]
  ELSE IF v.t = "arr" THEN Intro(Hyphen, v, t.dep + 1, t.f, o, FALSE)
  ELSE IF v.k = <<>> THEN [line |-> <<DASH>>, push |-> <<>>]
  ELSE \* first field on the hyphen line, its children two levels deeper
       LET x == Intro(Hyphen \o KeyText(v.k[1]), v.v[1], t.dep + 2, t.f, o, TRUE)
       IN [line |-> x.line, push |-> x.push \o FieldTasks(v, 2, t.dep + 1, t.f)]

\* One step: [line |-> text of the line, todo |-> remaining stack].
EncStep(todo, o) ==
  LET t == Head(todo)
      r == CASE t.w = "field" -> FieldStep(t, o)
             [] t.w = "item" -> ItemStep(t, o)
             [] t.w = "row" -> [line |-> Cells(t.v, o.d), push |-> <<>>]
             [] t.w = "root" -> IF IsPrim(t.v) THEN [line |-> PrimText(t.v, o.d), push |-> <<>>]
                                ELSE Intro(<<>>, t.v, 1, o.fold, o, TRUE)
  IN [line |-> Spaces(t.dep * o.n) \o r.line, todo |-> r.push \o Tail(todo)]

EncInit(v, o) ==
  IF v.t = "obj" THEN FieldTasks(v, 1, 0, o.fold)
  ELSE <<[w |-> "root", v |-> v, dep |-> 0]>>

\* The whole document as a sequence of lines (the machine run to completion).
RECURSIVE EncRun(_, _, _)
EncRun(todo, o, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET s == EncStep(todo, o) IN EncRun(s.todo, o, Append(acc, s.line))
Encode(v, o) == EncRun(EncInit(v, o), o, <<>>)

(* --------------------- what a reader gets back --------------------------- *)
(* RoundTrip(v, o): the value the encoding of v with options o denotes when   *)
(* keys are taken literally: v itself, except that the rows of a table take   *)
(* the table's column order, and that folded chains are single dotted keys.   *)
Reorder(obj, ks) == Obj(ks, RowOf(obj, ks))
RECURSIVE RTValue(_, _, _, _)
RECURSIVE RTObj(_, _, _, _)
\* tab: a table may stand here; f: folding allowed.
RTValue(v, o, f, tab) ==
  CASE v.t = "arr" ->
         IF tab /\ IsTabular(v.a)
         THEN Arr([i \in 1..Len(v.a) |-> Reorder(v.a[i], v.a[1].k)])
         ELSE Arr([i \in 1..Len(v.a) |-> IF v.a[i].t = "obj" THEN RTObj(v.a[i], o, f, 2)
                                         ELSE RTValue(v.a[i], o, f, FALSE)])
    [] v.t = "obj" -> RTObj(v, o, f, 1)
    [] OTHER -> v
\* Fields from number `from` on may be folded.
RTObj(obj, o, f, from) ==
  LET sibs == SeqRange(obj.k)
      R == [i \in 1..Len(obj.k) |->
             LET x == IF i < from THEN [r |-> "no"]
                      ELSE Folding(obj.k[i], obj.v[i], [o EXCEPT !.fold = f], sibs) IN
             IF x.r = "yes" THEN [k |-> x.key, v |-> RTValue(x.v, o, FALSE, TRUE)]
             ELSE [k |-> obj.k[i], v |-> RTValue(obj.v[i], o, f /\ x.r # "clash", TRUE)]]
  IN Obj([i \in 1..Len(R) |-> R[i].k], [i \in 1..Len(R) |-> R[i].v])
RoundTrip(v, o) == RTValue(v, o, o.fold, TRUE)
=============================================================================
