------------------------------ MODULE ToonSerde -----------------------------
(* Typed values.  A value of a Rust type is seen as the tree of calls its      *)
(* Serialize implementation makes (serde's data model):                       *)
(*   [c |-> "bool", b]  [c |-> "num", n] (every integer width)                *)
(*   [c |-> "f64", n]  [c |-> "f32", n, m] (n: widened to a double, m: as     *)
(*   f32)  [c |-> "nan"] (not finite)  [c |-> "str"/"char", s]                *)
(*   [c |-> "bytes", x]  [c |-> "none"]  [c |-> "some", x]  [c |-> "unit"]    *)
(*   [c |-> "unitstruct"]  [c |-> "newstruct", x]                             *)
(*   [c |-> "seq"/"tuple"/"tuplestruct", a]                                   *)
(*   [c |-> "map", kk (trees), a]  [c |-> "struct", k (texts), a]             *)
(*   [c |-> "unitvar", s]  [c |-> "newvar", s, x]  [c |-> "tuplevar", s, a]   *)
(*   [c |-> "structvar", s, k, a]  [c |-> "fail"] (it reports an error)       *)
(* JsonOf maps such a tree to the JSON value it stands for; Convert reads a   *)
(* JSON value as a value of a given type.                                     *)
EXTENDS ToonScalar

Fail == [r |-> "err"]
Dup == [r |-> "dup"]          \* repeated map keys: nothing is claimed
Worst(rs) == IF \E i \in 1..Len(rs) : rs[i].r = "err" THEN Fail
             ELSE IF \E i \in 1..Len(rs) : rs[i].r = "dup" THEN Dup ELSE [r |-> "ok"]
Vals(rs) == [i \in 1..Len(rs) |-> rs[i].v]
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

\* The text of a map key.
RECURSIVE KeyOf(_)
KeyOf(t) ==
  CASE t.c = "bool" -> Ok(IF t.b THEN TRUEtxt ELSE FALSEtxt)
    [] t.c \in {"num", "f64", "f32"} -> Ok(NumText(t.n))
    [] t.c \in {"nan", "none", "unit", "unitstruct"} -> Ok(NULLtxt)
    [] t.c \in {"str", "char", "unitvar"} -> Ok(t.s)
    [] t.c \in {"some", "newstruct"} -> KeyOf(t.x)
    [] OTHER -> Fail

RECURSIVE JsonOf(_)
JsonAll(a) == [i \in 1..Len(a) |-> JsonOf(a[i])]
ArrOf(rs) == LET w == Worst(rs) IN IF w.r = "ok" THEN Ok(Arr(Vals(rs))) ELSE w
ObjOf(ks, rs) == LET w == Worst(rs) IN
  IF w.r # "ok" THEN w ELSE IF ~Distinct(ks) THEN Dup ELSE Ok(Obj(ks, Vals(rs)))
Wrap(s, r) == IF r.r = "ok" THEN Ok(Obj(<<s>>, <<r.v>>)) ELSE r
JsonOf(t) ==
  CASE t.c = "bool" -> Ok(Bool(t.b))
    [] t.c \in {"num", "f64", "f32"} -> Ok(t.n)
    [] t.c \in {"nan", "none", "unit", "unitstruct"} -> Ok(Null)
    [] t.c \in {"str", "char", "unitvar"} -> Ok(Str(t.s))
    [] t.c = "bytes" -> Ok(Arr([i \in 1..Len(t.x) |-> Num(FALSE, DigitVals(IntText(t.x[i]), 1, Len(IntText(t.x[i]))), 0)]))
    [] t.c \in {"some", "newstruct"} -> JsonOf(t.x)
    [] t.c \in {"seq", "tuple", "tuplestruct"} -> ArrOf(JsonAll(t.a))
    [] t.c = "map" -> LET ks == [i \in 1..Len(t.kk) |-> KeyOf(t.kk[i])]
                          w == Worst(ks) IN
                      IF w.r # "ok" THEN w ELSE ObjOf(Vals(ks), JsonAll(t.a))
    [] t.c = "struct" -> ObjOf(t.k, JsonAll(t.a))
    [] t.c = "newvar" -> Wrap(t.s, JsonOf(t.x))
    [] t.c = "tuplevar" -> Wrap(t.s, ArrOf(JsonAll(t.a)))
    [] t.c = "structvar" -> Wrap(t.s, ObjOf(t.k, JsonAll(t.a)))
    [] t.c = "fail" -> Fail

(* ------------------------------- types ------------------------------------ *)
(*   [y |-> "bool"] [y |-> "int", w] [y |-> "f64"] [y |-> "f32"] [y |-> "char"]   *)
(*   [y |-> "string"] [y |-> "unit"] [y |-> "unitstruct"] [y |-> "option", x]   *)
(*   [y |-> "vec", x] [y |-> "tuple"/"tuplestruct", a] [y |-> "newtype", x]     *)
(*   [y |-> "map", kt, x] [y |-> "struct", k, a] [y |-> "any"] [y |-> "ignored"] *)
(*   [y |-> "enum", k (names), a (contents)], contents: [y |-> "vunit"]        *)
(*   [y |-> "vnew", x] [y |-> "vtuple", a] [y |-> "vstruct", k, a]             *)
(* JSON numbers carry f: whether the number is held as a float.              *)
Got(x) == [r |-> "ok", x |-> x]
No == [r |-> "no"]

Digs(n) == DigitVals(IntText(n), 1, Len(IntText(n)))
MaxOf(w) == CASE w = "u8" -> Digs(255) [] w = "u16" -> Digs(65535) [] w = "u32" -> <<4,2,9,4,9,6,7,2,9,5>>
              [] w = "i8" -> Digs(127) [] w = "i16" -> Digs(32767) [] w = "i32" -> <<2,1,4,7,4,8,3,6,4,7>>
              [] w = "i64" -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
              [] w \in {"u64", "u128", "i128"} -> U64Max
MinOf(w) == CASE w \in {"u8", "u16", "u32", "u64", "u128"} -> <<>>
              [] w = "i8" -> Digs(128) [] w = "i16" -> Digs(32768) [] w = "i32" -> <<2,1,4,7,4,8,3,6,4,8>>
              [] w \in {"i64", "i128"} -> I64Min
MagLeq(ds, m) == Len(ds) < Len(m) \/ (Len(ds) = Len(m) /\ DigitsLeq(ds, m))
FitsWidth(n, w) == n.e >= 0 /\ Len(n.d) + n.e <= 20
                   /\ MagLeq(n.d \o Zeros(n.e), IF n.neg THEN MinOf(w) ELSE MaxOf(w))
BareNum(n) == [t |-> "num", neg |-> n.neg, d |-> n.d, e |-> n.e]
RECURSIVE PlainValue(_)
PlainValue(v) == CASE v.t = "num" -> BareNum(v)
                   [] v.t = "arr" -> Arr([i \in 1..Len(v.a) |-> PlainValue(v.a[i])])
                   [] v.t = "obj" -> Obj(v.k, [i \in 1..Len(v.v) |-> PlainValue(v.v[i])])
                   [] OTHER -> v

Worst2(rs) == IF \E i \in 1..Len(rs) : rs[i].r = "no" THEN No
              ELSE IF \E i \in 1..Len(rs) : rs[i].r = "odd" THEN Odd ELSE [r |-> "ok"]
Xs(rs) == [i \in 1..Len(rs) |-> rs[i].x]
All(c, rs) == LET w == Worst2(rs) IN IF w.r = "ok" THEN Got([c |-> c, a |-> Xs(rs)]) ELSE w

\* A map key read as a value of type ty.
RECURSIVE KeyConvert(_, _)
KeyConvert(s, ty) ==
  CASE ty.y = "string" -> Got([c |-> "str", s |-> s])
    [] ty.y = "char" -> IF Len(s) = 1 THEN Got([c |-> "char", s |-> s]) ELSE No
    [] ty.y = "bool" -> IF s = TRUEtxt THEN Got([c |-> "bool", b |-> TRUE])
                        ELSE IF s = FALSEtxt THEN Got([c |-> "bool", b |-> FALSE]) ELSE No
    [] ty.y = "int" -> LET p == ParseNum(s) IN
                       IF ~p.ok THEN No
                       ELSE IF p.neg /\ p.i = <<0>> THEN Odd
                       ELSE IF ~p.int THEN (IF FitsWidth(Num(p.neg, p.i, 0), ty.w) THEN Odd ELSE No)
                       ELSE LET n == Num(p.neg, p.i, 0) IN
                            IF FitsWidth(n, ty.w) THEN Got([c |-> "num", n |-> n])
                            ELSE IF ty.w \in {"u128", "i128"} THEN Odd ELSE No
    [] ty.y \in {"f64", "f32"} -> Odd
    [] ty.y = "option" -> LET r == KeyConvert(s, ty.x) IN IF r.r = "ok" THEN Got([c |-> "some", x |-> r.x]) ELSE r
    [] ty.y = "newtype" -> LET r == KeyConvert(s, ty.x) IN IF r.r = "ok" THEN Got([c |-> "newstruct", x |-> r.x]) ELSE r
    [] ty.y = "enum" -> LET i == IndexOf(ty.k, s) IN
                        IF i # 0 /\ ty.a[i].y = "vunit" THEN Got([c |-> "unitvar", s |-> s]) ELSE No
    [] OTHER -> Odd

RECURSIVE Convert(_, _)
ConvertAll(a, ty) == [i \in 1..Len(a) |-> Convert(a[i], ty)]
ConvertEach(a, tys) == [i \in 1..Len(a) |-> Convert(a[i], tys[i])]
TupleOf(c, v, tys) == IF v.t # "arr" \/ Len(v.a) # Len(tys) THEN No ELSE All(c, ConvertEach(v.a, tys))
\* Named fields: unknown ones are skipped, an absent option is none.
FieldsOf(v, k, tys) ==
  [i \in 1..Len(k) |-> LET j == IndexOf(v.k, k[i]) IN
     IF j # 0 THEN Convert(v.v[j], tys[i])
     ELSE IF tys[i].y = "option" THEN Got([c |-> "none"]) ELSE No]
Named(v, k, tys, tag) ==
  LET rs == FieldsOf(v, k, tys)  w == Worst2(rs) IN
  IF w.r # "ok" THEN w ELSE Got([tag EXCEPT !.a = Xs(rs)])
Convert(v, ty) ==
  CASE ty.y = "bool" -> IF v.t = "bool" THEN Got([c |-> "bool", b |-> v.b]) ELSE No
    [] ty.y = "int" -> IF v.t = "num" /\ ~v.f /\ FitsWidth(v, ty.w) THEN Got([c |-> "num", n |-> BareNum(v)]) ELSE No
    [] ty.y = "f64" -> IF v.t # "num" THEN No
                       ELSE IF v.f \/ Len(v.d) <= 15 THEN Got([c |-> "f64", n |-> BareNum(v)]) ELSE Odd
    [] ty.y = "f32" -> IF v.t # "num" THEN No
                       ELSE IF Len(v.d) <= 6 /\ v.e \in -30..30 THEN Got([c |-> "f32", m |-> BareNum(v)]) ELSE Odd
    [] ty.y = "char" -> IF v.t = "str" /\ Len(v.s) = 1 THEN Got([c |-> "char", s |-> v.s]) ELSE No
    [] ty.y = "string" -> IF v.t = "str" THEN Got([c |-> "str", s |-> v.s]) ELSE No
    [] ty.y \in {"unit", "unitstruct"} -> IF v.t = "null" THEN Got([c |-> ty.y]) ELSE No
    [] ty.y = "option" -> IF v.t = "null" THEN Got([c |-> "none"])
                          ELSE LET r == Convert(v, ty.x) IN IF r.r = "ok" THEN Got([c |-> "some", x |-> r.x]) ELSE r
    [] ty.y = "newtype" -> LET r == Convert(v, ty.x) IN IF r.r = "ok" THEN Got([c |-> "newstruct", x |-> r.x]) ELSE r
    [] ty.y = "vec" -> IF v.t = "arr" THEN All("seq", ConvertAll(v.a, ty.x)) ELSE No
    [] ty.y \in {"tuple", "tuplestruct"} -> TupleOf(ty.y, v, ty.a)
    [] ty.y = "map" ->
         IF v.t # "obj" THEN No
         ELSE LET ks == [i \in 1..Len(v.k) |-> KeyConvert(v.k[i], ty.kt)]
                  rs == ConvertAll(v.v, ty.x)
                  w == Worst2(ks \o rs) IN
              IF w.r # "ok" THEN w ELSE Got([c |-> "map", kk |-> Xs(ks), a |-> Xs(rs)])
    [] ty.y = "struct" ->
         IF v.t = "obj" THEN Named(v, ty.k, ty.a, [c |-> "struct", k |-> ty.k, a |-> <<>>])
         ELSE LET r == TupleOf("struct", v, ty.a) IN
              IF r.r = "ok" THEN Got([c |-> "struct", k |-> ty.k, a |-> r.x.a]) ELSE r
    [] ty.y = "enum" ->
         IF v.t = "str"
         THEN LET i == IndexOf(ty.k, v.s) IN
              IF i # 0 /\ ty.a[i].y = "vunit" THEN Got([c |-> "unitvar", s |-> v.s]) ELSE No
         ELSE IF v.t # "obj" \/ Len(v.k) # 1 \/ IndexOf(ty.k, v.k[1]) = 0 THEN No
         ELSE LET s == v.k[1]  x == v.v[1]  q == ty.a[IndexOf(ty.k, s)] IN
              (CASE q.y = "vunit" -> IF x.t = "null" THEN Got([c |-> "unitvar", s |-> s]) ELSE No
                [] q.y = "vnew" -> LET r == Convert(x, q.x) IN IF r.r = "ok" THEN Got([c |-> "newvar", s |-> s, x |-> r.x]) ELSE r
                [] q.y = "vtuple" -> LET r == TupleOf("tuple", x, q.a) IN
                                     IF r.r = "ok" THEN Got([c |-> "tuplevar", s |-> s, a |-> r.x.a]) ELSE r
                [] q.y = "vstruct" -> IF x.t # "obj" THEN No
                                      ELSE Named(x, q.k, q.a, [c |-> "structvar", s |-> s, k |-> q.k, a |-> <<>>]))
    [] ty.y = "any" -> Got([c |-> "json", v |-> PlainValue(v)])
    [] ty.y = "ignored" -> Got([c |-> "unit"])

\* How a number read from a document that the encoder wrote is held.
RECURSIVE Held(_)
Held(v) == CASE v.t = "num" -> [t |-> "num", neg |-> v.neg, d |-> v.d, e |-> v.e,
                                f |-> v.e < 0 \/ Len(v.d) + v.e > 20 \/ ~FitsInt(v.neg, v.d \o Zeros(v.e))]
             [] v.t = "arr" -> Arr([i \in 1..Len(v.a) |-> Held(v.a[i])])
             [] v.t = "obj" -> Obj(v.k, [i \in 1..Len(v.v) |-> Held(v.v[i])])
             [] OTHER -> v
\* Trees whose value survives: no option or unit directly in an option, nothing
\* without a finite number, and no float held as one that reads back as another.
RECURSIVE Faithful(_)
Faithful(t) ==
  CASE t.c = "some" -> Faithful(t.x) /\ JsonOf(t.x).v # Null
    [] t.c \in {"newstruct", "newvar"} -> Faithful(t.x)
    [] t.c \in {"seq", "tuple", "tuplestruct", "tuplevar", "struct", "structvar"} -> \A i \in 1..Len(t.a) : Faithful(t.a[i])
    [] t.c = "map" -> (\A i \in 1..Len(t.a) : Faithful(t.a[i])) /\ (\A i \in 1..Len(t.kk) : t.kk[i].c \in {"str", "num", "bool", "char", "unitvar", "newstruct"})
    [] t.c \in {"nan", "bytes", "fail"} -> FALSE
    [] OTHER -> TRUE
RECURSIVE Sorted(_)
\* Trees up to the order of map entries (a table may permute them).
Sorted(t) ==
  CASE t.c \in {"some", "newstruct"} -> [t EXCEPT !.x = Sorted(@)]
    [] t.c = "newvar" -> [t EXCEPT !.x = Sorted(@)]
    [] t.c \in {"seq", "tuple", "tuplestruct", "tuplevar", "struct", "structvar"} -> [t EXCEPT !.a = [i \in 1..Len(t.a) |-> Sorted(t.a[i])]]
    [] t.c = "map" -> [c |-> "map", m |-> {<<KeyOf(t.kk[i]).v, Sorted(t.a[i])>> : i \in 1..Len(t.a)}]
    [] t.c = "f32" -> [c |-> "f32", m |-> t.m]
    [] OTHER -> t
=============================================================================
