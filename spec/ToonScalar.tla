----------------------------- MODULE ToonScalar -----------------------------
(* Scalars: how they are written, and how a token is read.                   *)
EXTENDS ToonValue

(* ------------------------------ numbers --------------------------------- *)

\* Canonical decimal text: no exponent, no superfluous zeros.
NumText(n) ==
  LET k == Len(n.d)
      body == IF n.d = <<>> THEN <<48>>
              ELSE IF n.e >= 0 THEN DigitText(n.d \o Zeros(n.e))
              ELSE IF k + n.e > 0
                   THEN DigitText(SubSeq(n.d, 1, k + n.e)) \o <<DOT>>
                        \o DigitText(SubSeq(n.d, k + n.e + 1, k))
              ELSE <<48, DOT>> \o DigitText(Zeros(-(k + n.e)) \o n.d)
  IN IF n.neg THEN <<DASH>> \o body ELSE body

\* Last position of the run of digits starting at i (i-1 if there is none).
DigitsEnd(s, i) == SkipSet(s, i, 48..57) - 1
DigitVals(s, i, j) == [x \in 1..(j - i + 1) |-> s[i + x - 1] - 48]

NoNum == [ok |-> FALSE]

\* JSON number grammar: -? (0 | [1-9][0-9]*) ( . [0-9]+ )? ( [eE] [+-]? [0-9]+ )?
ParseNum(s) ==
  LET neg == Len(s) >= 1 /\ s[1] = DASH
      i0 == IF neg THEN 2 ELSE 1
      i1 == DigitsEnd(s, i0)
      intOk == i1 >= i0 /\ (s[i0] # 48 \/ i1 = i0)
      hasF == i1 + 1 <= Len(s) /\ s[i1 + 1] = DOT
      f1 == IF hasF THEN DigitsEnd(s, i1 + 2) ELSE i1
      fOk == ~hasF \/ f1 >= i1 + 2
      hasE == f1 + 1 <= Len(s) /\ Lower(s[f1 + 1]) = 101
      hasS == hasE /\ f1 + 2 <= Len(s) /\ s[f1 + 2] \in {PLUS, DASH}
      x0 == IF hasS THEN f1 + 3 ELSE f1 + 2
      x1 == IF hasE THEN DigitsEnd(s, x0) ELSE f1
      eOk == ~hasE \/ x1 >= x0
  IN IF ~(intOk /\ fOk /\ eOk /\ x1 = Len(s)) THEN NoNum
     ELSE [ok |-> TRUE, neg |-> neg, int |-> ~hasF /\ ~hasE,
           i |-> DigitVals(s, i0, i1),
           f |-> IF hasF THEN DigitVals(s, i1 + 2, f1) ELSE <<>>,
           x |-> IF hasE THEN DigitVals(s, x0, x1) ELSE <<>>,
           xneg |-> hasS /\ s[f1 + 2] = DASH]

RECURSIVE DigitsVal(_, _)
DigitsVal(ds, acc) == IF ds = <<>> THEN acc ELSE DigitsVal(Tail(ds), acc * 10 + Head(ds))

\* Lexicographic <= on digit sequences of equal length.
DigitsLeq(a, b) ==
  LET D == {i \in 1..Len(a) : a[i] # b[i]} IN
  D = {} \/ LET m == CHOOSE i \in D : \A j \in D : i <= j IN a[m] < b[m]
U64Max == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
I64Min == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
FitsInt(neg, ds) ==
  LET m == IF neg THEN I64Min ELSE U64Max IN
  Len(ds) < Len(m) \/ (Len(ds) = Len(m) /\ DigitsLeq(ds, m))

\* The number a numeric token denotes.  Integers that fit 64 bits are exact.
\* Other tokens denote the nearest double; with at most 15 significant digits
\* in the normal range that double's shortest decimal is the token itself
\* (IEEE 754, DBL_DIG = 15).  For longer tokens the binary rounding is not
\* computed here but looked up in the table `fl` of <<token, value>> pairs
\* supplied with the case (the platform's own correctly rounded conversion).
FloatOf(tok, p, fl) ==
  LET xv == IF Len(p.x) > 5 THEN 0 ELSE (IF p.xneg THEN -1 ELSE 1) * DigitsVal(p.x, 0)
      n == Num(p.neg, p.i \o p.f, xv - Len(p.f))
      mag == n.e + Len(n.d)
      J == {j \in 1..Len(fl) : fl[j].k = tok}
  IN IF J # {} THEN fl[CHOOSE j \in J : TRUE].n
     ELSE IF n.d = <<>> THEN Zero
     ELSE IF Len(n.d) <= 15 /\ mag <= 300 /\ mag >= -300 /\ Len(p.x) <= 5 THEN n
     ELSE [t |-> "unknown"]

NumOf(tok, p, fl) ==
  IF p.int /\ FitsInt(p.neg, p.i) THEN Num(p.neg, p.i, 0) ELSE FloatOf(tok, p, fl)

(* A token some float parser would accept: optional sign(s), then inf, nan or *)
(* digits with an optional point and exponent.  Such strings must be quoted.  *)
LowerText(s) == [i \in 1..Len(s) |-> Lower(s[i])]
InfNan == { <<105,110,102>>, <<110,97,110>>, <<105,110,102,105,110,105,116,121>> }
UnsignedFloatLike(s) ==
  LET i1 == DigitsEnd(s, 1)
      hasF == i1 + 1 <= Len(s) /\ s[i1 + 1] = DOT
      f1 == IF hasF THEN DigitsEnd(s, i1 + 2) ELSE i1
      nd == i1 + (IF hasF THEN f1 - (i1 + 1) ELSE 0)
      hasE == f1 + 1 <= Len(s) /\ Lower(s[f1 + 1]) = 101
      x0 == IF hasE /\ f1 + 2 <= Len(s) /\ s[f1 + 2] \in {PLUS, DASH} THEN f1 + 3 ELSE f1 + 2
      x1 == IF hasE THEN DigitsEnd(s, x0) ELSE f1
  IN \/ LowerText(s) \in InfNan
     \/ nd > 0 /\ x1 = Len(s) /\ (hasE => x1 >= x0)
DropSign(s) == IF Len(s) > 0 /\ s[1] \in {PLUS, DASH} THEN Tail(s) ELSE s
FloatLike(s) == LET u == TrimSet(s, WhiteSpace) IN
                UnsignedFloatLike(DropSign(DropSign(u)))
                \/ UnsignedFloatLike(DropSign(u))

(* ------------------------------ strings --------------------------------- *)

TRUEtxt == <<116,114,117,101>>
FALSEtxt == <<102,97,108,115,101>>
NULLtxt == <<110,117,108,108>>
Literals == {TRUEtxt, FALSEtxt, NULLtxt}

Structural == {COLON, LBRK, RBRK, LBRC, RBRC, QT, BSL}

NeedsQuotes(s, delim) ==
  \/ s = <<>>
  \/ s[1] \in {SP, DASH} \/ s[Len(s)] = SP
  \/ \E i \in 1..Len(s) : s[i] \in Structural \/ s[i] = delim \/ IsControl(s[i])
  \/ s \in Literals
  \/ FloatLike(s)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
EscChar(c) ==
  CASE c = QT -> <<BSL, QT>>
    [] c = BSL -> <<BSL, BSL>>
    [] c = LF -> <<BSL, 110>>
    [] c = CR -> <<BSL, 114>>
    [] c = TAB -> <<BSL, 116>>
    [] IsControl(c) /\ c \notin {LF, CR, TAB} ->
         <<BSL, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
    [] OTHER -> <<c>>
RECURSIVE EscapeFrom(_, _)
EscapeFrom(s, i) == IF i > Len(s) THEN <<>> ELSE EscChar(s[i]) \o EscapeFrom(s, i + 1)
MustEscape(c) == c = QT \/ c = BSL \/ IsControl(c)
QuoteText(s) ==
  <<QT>> \o (IF \E i \in 1..Len(s) : MustEscape(s[i]) THEN EscapeFrom(s, 1) ELSE s) \o <<QT>>

StrText(s, delim) == IF NeedsQuotes(s, delim) THEN QuoteText(s) ELSE s

IdentStart(c) == IsAlpha(c) \/ c = USC
IdentChar(c) == IsAlpha(c) \/ c = USC \/ IsDigit(c)
IsIdent(s) == s # <<>> /\ IdentStart(s[1]) /\ \A i \in 1..Len(s) : IdentChar(s[i])
BareKey(s) == s # <<>> /\ IdentStart(s[1]) /\ \A i \in 1..Len(s) : IdentChar(s[i]) \/ s[i] = DOT
KeyText(s) == IF BareKey(s) THEN s ELSE QuoteText(s)

PrimText(v, delim) ==
  CASE v.t = "null" -> NULLtxt
    [] v.t = "bool" -> IF v.b THEN TRUEtxt ELSE FALSEtxt
    [] v.t = "num" -> NumText(v)
    [] v.t = "str" -> StrText(v.s, delim)

(* ----------------------------- reading ----------------------------------- *)
(* Results: [r |-> "ok", v |-> value] | [r |-> "bad"] | [r |-> "odd"].       *)
(* "bad": every conforming decoder rejects.  "odd": TOON leaves the token    *)
(* open; nothing is claimed about documents containing it.                   *)
Ok(v) == [r |-> "ok", v |-> v]
Bad == [r |-> "bad"]
Odd == [r |-> "odd"]

HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF Lower(c) >= 97 /\ Lower(c) <= 102 THEN Lower(c) - 87 ELSE -1

\* Undo escapes of the text between the quotes.
RECURSIVE Unescape(_, _, _)
Unescape(s, i, acc) ==
  IF i > Len(s) THEN Ok(acc)
  ELSE IF s[i] # BSL THEN Unescape(s, i + 1, Append(acc, s[i]))
  ELSE IF i = Len(s) THEN Bad
  ELSE LET c == s[i + 1] IN
    CASE c \in {QT, BSL, 47} -> Unescape(s, i + 2, Append(acc, c))
      [] c = 110 -> Unescape(s, i + 2, Append(acc, LF))
      [] c = 114 -> Unescape(s, i + 2, Append(acc, CR))
      [] c = 116 -> Unescape(s, i + 2, Append(acc, TAB))
      [] c = 98 -> Unescape(s, i + 2, Append(acc, 8))
      [] c = 102 -> Unescape(s, i + 2, Append(acc, 12))
      [] c = 117 ->
           IF i + 5 > Len(s) THEN Bad
           ELSE LET h == [j \in 1..4 |-> HexVal(s[i + 1 + j])] IN
                IF \E j \in 1..4 : h[j] < 0 THEN Bad
                ELSE LET u == ((h[1] * 16 + h[2]) * 16 + h[3]) * 16 + h[4] IN
                     IF u >= 55296 /\ u <= 57343 THEN Odd
                     ELSE Unescape(s, i + 6, Append(acc, u))
      [] OTHER -> Bad

\* A token that starts with a quote.
ReadQuoted(s) ==
  LET q == CloseFrom(s, 2) IN
  IF q = 0 THEN Bad
  ELSE IF q < Len(s) THEN Bad
  ELSE IF ~Contains(s, BSL) THEN Ok(SubSeq(s, 2, q - 1))
  ELSE Unescape(SubSeq(s, 2, q - 1), 1, <<>>)

ReadScalar(s, fl) ==
  IF s = <<>> THEN Ok(Str(<<>>))
  ELSE IF s[1] = QT
       THEN LET r == ReadQuoted(s) IN IF r.r = "ok" THEN Ok(Str(r.v)) ELSE r
  ELSE IF s = NULLtxt THEN Ok(Null)
  ELSE IF s = TRUEtxt THEN Ok(Bool(TRUE))
  ELSE IF s = FALSEtxt THEN Ok(Bool(FALSE))
  ELSE LET p == ParseNum(s) IN
       IF p.ok THEN LET n == NumOf(s, p, fl) IN IF n.t = "unknown" THEN Odd ELSE Ok(n)
       ELSE IF IsWs(s[1]) \/ IsWs(s[Len(s)]) \/ Contains(s, QT) \/ Contains(s, CR) THEN Odd
       ELSE Ok(Str(s))

\* Keys keep a flag telling whether they were quoted (path expansion skips
\* quoted keys): v = [s |-> text, q |-> BOOLEAN].
ReadKey(s) ==
  IF s = <<>> THEN Odd
  ELSE IF s[1] = QT
       THEN LET r == ReadQuoted(s) IN
            IF r.r = "ok" THEN Ok([s |-> r.v, q |-> TRUE])
            ELSE IF IsWs(s[Len(s)]) /\ ReadQuoted(Trim(s)).r = "ok" THEN Odd ELSE r
  ELSE IF IsWs(s[1]) \/ IsWs(s[Len(s)]) \/ ContainsAny(s, {QT, CR, TAB, LBRK, RBRK, LBRC, RBRC}) THEN Odd
  ELSE Ok([s |-> s, q |-> FALSE])
=============================================================================
