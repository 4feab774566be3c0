-------------------------------- MODULE MCSerde -------------------------------
(* All call trees of up to Max nodes over given leaves, names and map keys,     *)
(* built bottom-up on a stack as in MCValues.  Every complete tree is printed    *)
(* with its canonical text, the result of reading that text back as the tree's   *)
(* own type, and the results of reading it as each of a list of other types.     *)
EXTENDS ToonEncode, ToonDecode, ToonSerde, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MCCFG)
Leaves == Cfg.leaves
Names == Cfg.names          \* field and variant names
Keys == Cfg.mapkeys         \* trees usable as map keys
Kinds == SeqRange(Cfg.kinds)
Max == Cfg.max
Opts == Cfg.opts
Types == Cfg.types

VARIABLES st, n
vars == <<st, n>>
\* An open node: kind c, name s, field names k, key trees kk, children a.
Open0(c, s) == [c |-> c, s |-> s, k |-> <<>>, kk |-> <<>>, a |-> <<>>]
Init == st = <<Open0("root", <<>>)>> /\ n = 0
Done == Len(st) = 1 /\ Len(st[1].a) = 1
Tree == st[1].a[1]

One == {"some", "newstruct", "newvar"}
Given == {"tuplevar", "structvar", "newvar"}   \* kinds with a variant name
HasNames == {"struct", "structvar"}
CloseNode(t) ==
  CASE t.c \in {"some", "newstruct"} -> [c |-> t.c, x |-> t.a[1]]
    [] t.c = "newvar" -> [c |-> t.c, s |-> t.s, x |-> t.a[1]]
    [] t.c \in {"seq", "tuple", "tuplestruct"} -> [c |-> t.c, a |-> t.a]
    [] t.c = "tuplevar" -> [c |-> t.c, s |-> t.s, a |-> t.a]
    [] t.c = "map" -> [c |-> t.c, kk |-> t.kk, a |-> t.a]
    [] t.c = "struct" -> [c |-> t.c, k |-> t.k, a |-> t.a]
    [] t.c = "structvar" -> [c |-> t.c, s |-> t.s, k |-> t.k, a |-> t.a]
Give(stack, x) == <<[Head(stack) EXCEPT !.a = Append(@, x)]>> \o Tail(stack)
\* The top ready to receive one more child.
Ready(top) ==
  IF top.c \in HasNames
  THEN {[top EXCEPT !.k = Append(@, s)] : s \in {s \in SeqRange(Names) : s \notin SeqRange(top.k)}}
  ELSE IF top.c = "map" THEN {[top EXCEPT !.kk = Append(@, x)] : x \in SeqRange(Keys)}
  ELSE IF top.c \in One \cup {"root"} /\ Len(top.a) = 1 THEN {} ELSE {top}
AddLeaf == \E t \in Ready(Head(st)), i \in 1..Len(Leaves) : st' = Give(<<t>> \o Tail(st), Leaves[i])
AddNode == \E t \in Ready(Head(st)), c \in Kinds, s \in SeqRange(Names) :
             /\ c \in Given \/ s = Names[1]
             /\ st' = <<Open0(c, IF c \in Given THEN s ELSE <<>>)>> \o <<t>> \o Tail(st)
Add == n < Max /\ n' = n + 1 /\ (AddLeaf \/ AddNode)
CloseTop == /\ Len(st) > 1 /\ n' = n
            /\ Head(st).c \in One \cup {"tuple", "tuplestruct", "tuplevar"} => Head(st).a # <<>>
            /\ st' = Give(Tail(st), CloseNode(Head(st)))
Next == ~Done /\ (Add \/ CloseTop)
Spec == Init /\ [][Next]_vars

(* ------------------------------ the tree's type --------------------------- *)
RECURSIVE TypeOf(_)
NoType == [y |-> "none"]
Uniform(ts) == \A i \in 1..Len(ts) : ts[i] = ts[1]
TypesOf(a) == [i \in 1..Len(a) |-> TypeOf(a[i])]
TypeOf(t) ==
  CASE t.c = "bool" -> [y |-> "bool"]
    [] t.c = "num" -> [y |-> "int", w |-> IF t.n.neg THEN "i64" ELSE "u64"]
    [] t.c \in {"f64", "f32"} -> [y |-> t.c]
    [] t.c = "str" -> [y |-> "string"]
    [] t.c = "char" -> [y |-> "char"]
    [] t.c \in {"unit", "unitstruct"} -> [y |-> t.c]
    [] t.c = "none" -> [y |-> "option", x |-> [y |-> "bool"]]
    [] t.c = "some" -> [y |-> "option", x |-> TypeOf(t.x)]
    [] t.c = "newstruct" -> [y |-> "newtype", x |-> TypeOf(t.x)]
    [] t.c = "seq" -> [y |-> "vec", x |-> IF t.a = <<>> THEN [y |-> "any"] ELSE TypeOf(t.a[1])]
    [] t.c \in {"tuple", "tuplestruct"} -> [y |-> t.c, a |-> TypesOf(t.a)]
    [] t.c = "map" -> [y |-> "map", kt |-> IF t.kk = <<>> THEN [y |-> "string"] ELSE TypeOf(t.kk[1]),
                       x |-> IF t.a = <<>> THEN [y |-> "any"] ELSE TypeOf(t.a[1])]
    [] t.c = "struct" -> [y |-> "struct", k |-> t.k, a |-> TypesOf(t.a)]
    [] t.c = "unitvar" -> [y |-> "enum", k |-> <<t.s>>, a |-> <<[y |-> "vunit"]>>]
    [] t.c = "newvar" -> [y |-> "enum", k |-> <<t.s>>, a |-> <<[y |-> "vnew", x |-> TypeOf(t.x)]>>]
    [] t.c = "tuplevar" -> [y |-> "enum", k |-> <<t.s>>, a |-> <<[y |-> "vtuple", a |-> TypesOf(t.a)]>>]
    [] t.c = "structvar" -> [y |-> "enum", k |-> <<t.s>>, a |-> <<[y |-> "vstruct", k |-> t.k, a |-> TypesOf(t.a)]>>]
\* A sequence or map is one type's value only if its elements share a type.
RECURSIVE Typed(_)
Typed(t) ==
  CASE t.c \in {"some", "newstruct", "newvar"} -> Typed(t.x)
    [] t.c \in {"tuple", "tuplestruct", "tuplevar", "struct", "structvar"} -> \A i \in 1..Len(t.a) : Typed(t.a[i])
    [] t.c = "seq" -> (\A i \in 1..Len(t.a) : Typed(t.a[i])) /\ Uniform(TypesOf(t.a))
    [] t.c = "map" -> (\A i \in 1..Len(t.a) : Typed(t.a[i])) /\ Uniform(TypesOf(t.a)) /\ Uniform(TypesOf(t.kk))
    [] OTHER -> TRUE

J == JsonOf(Tree)
\* What the text of the tree under options o reads back as (tables reorder).
Back(o) == Held(RoundTrip(J.v, o))
HasOwn == J.r = "ok" /\ Faithful(Tree) /\ Typed(Tree)
(* ------------------------------ properties -------------------------------- *)
\* Encoding a typed value and decoding it to its type is the identity.
Identity == (Done /\ HasOwn) => LET r == Convert(Back(Opts[1]), TypeOf(Tree)) IN
              r.r = "ok" /\ Sorted(r.x) = Sorted(Tree)
\* Without folding the canonical text's value is the tree's JSON value.
Same == (Done /\ J.r = "ok") => \A j \in 1..Len(Opts) :
          Decode(Encode(J.v, Opts[j]), [strict |-> TRUE, n |-> Opts[j].n, ex |-> FALSE, fl |-> <<>>]) = Ok(RoundTrip(J.v, Opts[j]))
Emit == Done => PrintT("@G " \o ToJson(
          IF J.r = "ok"
          THEN [tree |-> Tree, r |-> "ok", e |-> [j \in 1..Len(Opts) |-> Encode(J.v, Opts[j])],
                own |-> IF HasOwn THEN <<TypeOf(Tree)>> ELSE <<>>,
                ownr |-> IF HasOwn THEN <<Convert(Back(Opts[1]), TypeOf(Tree))>> ELSE <<>>,
                other |-> [j \in 1..Len(Types) |-> Convert(Back(Opts[1]), Types[j])]]
          ELSE [tree |-> Tree, r |-> J.r]))
=============================================================================
