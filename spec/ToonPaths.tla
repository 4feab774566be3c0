------------------------------ MODULE ToonPaths ------------------------------
(* From the fields of a document, in order of appearance, to the objects they *)
(* denote.  A "raw" object keeps every field with a flag telling whether its  *)
(* key was quoted: [t |-> "obj", k |-> seq of [s |-> text, q |-> BOOLEAN],     *)
(* v |-> seq of raw values].  Results are Ok(value) or Bad (conflict).         *)
EXTENDS ToonScalar

\* Documents nest at most this deep: lines open at once, and levels added by
\* dotted keys.  What deeper documents mean is left open.
MaxDepth == 128

\* No expansion: keys exactly as written; the last of equal keys wins.
RECURSIVE Plain(_)
RECURSIVE PlainFrom(_, _, _)
PlainFrom(o, i, acc) ==
  IF i > Len(o.k) THEN acc ELSE PlainFrom(o, i + 1, Put(acc, o.k[i].s, Plain(o.v[i])))
Plain(r) ==
  CASE r.t = "arr" -> Arr([i \in 1..Len(r.a) |-> Plain(r.a[i])])
    [] r.t = "obj" -> PlainFrom(r, 1, EmptyObj)
    [] OTHER -> r

Expandable(key) == /\ ~key.q /\ Contains(key.s, DOT)
                   /\ \A i \in 1..Len(SplitAll(key.s, DOT)) : IsIdent(SplitAll(key.s, DOT)[i])
RECURSIVE Nest(_, _)
Nest(segs, v) == IF Len(segs) = 1 THEN Obj(segs, <<v>>)
                 ELSE Obj(<<segs[1]>>, <<Nest(Tail(segs), v)>>)

\* Merge the fields of `src`, one after the other, into `dst`.
RECURSIVE MergeField(_, _, _, _)
RECURSIVE MergeFrom(_, _, _, _)
MergeFrom(dst, src, i, strict) ==
  IF i > Len(src.k) THEN Ok(dst)
  ELSE LET r == MergeField(dst, src.k[i], src.v[i], strict) IN
       IF r.r # "ok" THEN r ELSE MergeFrom(r.v, src, i + 1, strict)
MergeField(dst, key, v, strict) ==
  LET i == IndexOf(dst.k, key) IN
  IF i = 0 THEN Ok(Put(dst, key, v))
  ELSE IF dst.v[i].t = "obj" /\ v.t = "obj"
       THEN LET r == MergeFrom(dst.v[i], v, 1, strict) IN
            IF r.r # "ok" THEN r ELSE Ok(Put(dst, key, r.v))
  ELSE IF strict THEN Bad
  ELSE Ok(Put(dst, key, v))

\* left: how many more levels dotted keys may add.
RECURSIVE ExpandIn(_, _, _)
RECURSIVE ExpandFields(_, _, _, _, _)
ExpandFields(o, i, acc, strict, left) ==
  IF i > Len(o.k) THEN Ok(acc)
  ELSE LET more == IF Expandable(o.k[i]) THEN Len(SplitAll(o.k[i].s, DOT)) - 1 ELSE 0
           x == IF more > left THEN Odd ELSE ExpandIn(o.v[i], strict, left - more) IN
    IF x.r # "ok" THEN x
    ELSE LET one == IF Expandable(o.k[i]) THEN Nest(SplitAll(o.k[i].s, DOT), x.v)
                    ELSE Obj(<<o.k[i].s>>, <<x.v>>)
             r == MergeFrom(acc, one, 1, strict)
         IN IF r.r # "ok" THEN r ELSE ExpandFields(o, i + 1, r.v, strict, left)
RECURSIVE ExpandItems(_, _, _, _, _)
ExpandItems(a, i, acc, strict, left) ==
  IF i > Len(a) THEN Ok(Arr(acc))
  ELSE LET x == ExpandIn(a[i], strict, left) IN
       IF x.r # "ok" THEN x ELSE ExpandItems(a, i + 1, Append(acc, x.v), strict, left)
ExpandIn(r, strict, left) ==
  CASE r.t = "arr" -> ExpandItems(r.a, 1, <<>>, strict, left)
    [] r.t = "obj" -> ExpandFields(r, 1, EmptyObj, strict, left)
    [] OTHER -> Ok(r)
Expand(r, strict) == ExpandIn(r, strict, MaxDepth)
=============================================================================
