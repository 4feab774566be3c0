------------------------------ MODULE ToonValue -----------------------------
(* The data TOON documents denote: JSON values.                              *)
(*   [t |-> "null"]                                                          *)
(*   [t |-> "bool", b |-> BOOLEAN]                                           *)
(*   [t |-> "num",  neg |-> BOOLEAN, d |-> digits, e |-> Int]                *)
(*        denotes (-1)^neg * d * 10^e.  Normal form: d has neither leading   *)
(*        nor trailing zeros; zero is neg=FALSE, d=<<>>, e=0.  So two        *)
(*        numbers are equal exactly when their records are.                  *)
(*   [t |-> "str",  s |-> text]                                              *)
(*   [t |-> "arr",  a |-> sequence of values]                                *)
(*   [t |-> "obj",  k |-> sequence of distinct texts, v |-> values]          *)
EXTENDS ToonText

Null == [t |-> "null"]
Bool(b) == [t |-> "bool", b |-> b]
Str(s) == [t |-> "str", s |-> s]
Arr(a) == [t |-> "arr", a |-> a]
Obj(k, v) == [t |-> "obj", k |-> k, v |-> v]
EmptyObj == Obj(<<>>, <<>>)

IsPrim(v) == v.t \notin {"arr", "obj"}
AllPrim(a) == \A i \in 1..Len(a) : IsPrim(a[i])
SeqRange(s) == {s[i] : i \in 1..Len(s)}
IndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
                 ELSE 0

Zero == [t |-> "num", neg |-> FALSE, d |-> <<>>, e |-> 0]
\* Normal form of (-1)^neg * digits * 10^e.
Num(neg, digits, e) ==
  LET a == SkipSet(digits, 1, {0})
      b == SkipSetBack(digits, Len(digits), {0})
  IN IF a > Len(digits) THEN Zero
     ELSE [t |-> "num", neg |-> neg, d |-> SubSeq(digits, a, b), e |-> e + (Len(digits) - b)]

\* Set key k to v in object o: a later value replaces an earlier one in place.
Put(o, k, v) ==
  LET i == IndexOf(o.k, k) IN
  IF i = 0 THEN Obj(Append(o.k, k), Append(o.v, v))
  ELSE Obj(o.k, [o.v EXCEPT ![i] = v])
\* Deeply nested values are recorded flat: their nodes in postorder, arrays as
\* [t: "arr", n: elements] and objects as [t: "obj", k: keys].
RECURSIVE Unflat(_, _, _)
Unflat(x, j, stack) ==
  IF j > Len(x) THEN stack[1]
  ELSE LET y == x[j]
           n == CASE y.t = "arr" -> y.n [] y.t = "obj" -> Len(y.k) [] OTHER -> 0
           kids == SubSeq(stack, Len(stack) - n + 1, Len(stack))
           node == CASE y.t = "arr" -> Arr(kids) [] y.t = "obj" -> Obj(y.k, kids) [] OTHER -> y
       IN Unflat(x, j + 1, Append(SubSeq(stack, 1, Len(stack) - n), node))
Val(v) == IF v.t = "flat" THEN Unflat(v.x, 1, <<>>) ELSE v
=============================================================================
