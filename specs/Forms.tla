-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* Validation in forms: Verify.tla for what is typed.  The value of a field   *)
(* is what it is in Verify, or a text [k |-> "t", s |-> characters] that may    *)
(* or may not be a value of the field's type (of: its name).                  *)
(***************************************************************************)
EXTENDS Verify

DigitOf == [c \in Range(Chars("0123456789")) |-> (CHOOSE n \in 1..10 : Char("0123456789", n) = c) - 1]
IsDigit(c) == c \in DOMAIN DigitOf

\* the place behind the digits from place p on
RECURSIVE Behind(_, _)
Behind(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN Behind(s, p + 1) ELSE p
At(s, p, set) == p <= Len(s) /\ s[p] \in set
Digits(s, p, q) == [n \in 1..(q - p) |-> DigitOf[s[p + n - 1]]]

RECURSIVE StripLeft(_), StripRight(_), ValueOf(_, _)
StripLeft(d) == IF d # <<>> /\ Head(d) = 0 THEN StripLeft(Tail(d)) ELSE d
StripRight(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripRight(SubSeq(d, 1, Len(d) - 1)) ELSE d
ValueOf(d, n) == IF d = <<>> THEN n ELSE ValueOf(Tail(d), 10 * n + Head(d))
Zeros(n) == [k \in 1..n |-> 0]

\* int.frac times 10 to the power e
Scaled(neg, int, frac, e) ==
  LET all == IF e >= 0 THEN int \o frac \o Zeros(IF e > Len(frac) THEN e - Len(frac) ELSE 0)
             ELSE Zeros(IF 0 - e > Len(int) THEN 0 - e - Len(int) ELSE 0) \o int \o frac
      p == IF e >= 0 THEN Len(int) + e ELSE IF 0 - e > Len(int) THEN 0 ELSE Len(int) + e
      i == StripLeft(SubSeq(all, 1, p))
      f == StripRight(SubSeq(all, p + 1, Len(all)))
  IN [neg |-> neg /\ (i # <<>> \/ f # <<>>), int |-> i, frac |-> f]

\* the number that a text is, if it is one; only digits for a whole one
Read(s, whole) ==
  LET neg == At(s, 1, {"-"})
      p == IF neg THEN 2 ELSE 1
      q == Behind(s, p)                                            \* digits
      point == ~whole /\ At(s, q, {"."}) /\ Behind(s, q + 1) > q + 1
      r == IF point THEN Behind(s, q + 1) ELSE q                   \* behind the fraction
      sign == IF At(s, r + 1, {"-", "+"}) THEN 1 ELSE 0
      ex == ~whole /\ At(s, r, {"e", "E"}) /\ Behind(s, r + 1 + sign) > r + 1 + sign
      t == IF ex THEN Behind(s, r + 1 + sign) ELSE r
      e == IF ex THEN ValueOf(Digits(s, r + 1 + sign, t), 0) ELSE 0
  IN IF q = p \/ t # Len(s) + 1 THEN <<>>
     ELSE <<Scaled(neg, Digits(s, p, q), IF point THEN Digits(s, q + 1, r) ELSE <<>>, IF ex /\ At(s, r + 1, {"-"}) THEN 0 - e ELSE e)>>

N(text) == Read(Chars(text), TRUE)[1]
Limits(of) ==
  CASE of = "int8" -> <<N("-128"), N("127")>>
    [] of = "int16" -> <<N("-32768"), N("32767")>>
    [] of = "int32" -> <<N("-2147483648"), N("2147483647")>>
    [] of = "int64" -> <<N("-9223372036854775808"), N("9223372036854775807")>>
    [] of = "uint8" -> <<N("0"), N("255")>>
    [] of = "uint16" -> <<N("0"), N("65535")>>
    [] of = "uint32" -> <<N("0"), N("4294967295")>>
    [] of = "uint64" -> <<N("0"), N("18446744073709551615")>>
    [] OTHER -> <<>>

\* the value that a text is, if it is one of the field's type
Typed(f, v) ==
  CASE v.k # "t" -> <<v>>
    [] f.kind = "str" -> <<[k |-> "s", s |-> v.s]>>
    [] f.kind \in {"int", "num", "dec"} ->
         LET n == Read(v.s, f.kind = "int")
         IN IF n = <<>> THEN <<>>
            ELSE IF Char(f.of, 1) = "u" /\ At(v.s, 1, {"-"}) THEN <<>>       \* no sign, not even before 0
            ELSE IF Limits(f.of) # <<>> /\ (Less(n[1], Limits(f.of)[1]) \/ Less(Limits(f.of)[2], n[1])) THEN <<>>
            ELSE <<[k |-> "n", n |-> n[1]]>>
    [] OTHER -> <<>>

\* the texts that stand for nothing: in TypeScript what null and undefined become as texts, too
NoValue == [ts |-> {<<>>, Chars("null"), Chars("undefined")}, dart |-> {<<>>}]
BlankIn(lang, v) == v.k = "null" \/ (v.k \in {"t", "s"} /\ v.s \in NoValue[lang])

VerdictIn(lang, f, v) ==
  LET xs == Formats(f)
  IN  IF xs = <<>> THEN ""
      ELSE IF f.opt /\ BlankIn(lang, v) THEN (IF xs[1].null THEN "" ELSE xs[1].item)
      ELSE IF f.shape # "one" \/ f.kind \in {"enum", "bool", "data"} THEN ""
      ELSE LET w == Typed(f, v) IN IF w = <<>> THEN xs[1].item ELSE First(xs, w[1])

\* forms and the server agree on every value: where Verify and FormVerdict could differ is in the
\* texts that stand for nothing, in empty collections and in unknown items, which forms do not have
AgreeIn(lang, f, v) ==
  (~BlankIn(lang, v) \/ v.k = "null" \/ (v.k = "s" /\ v.s = <<>>)) /\ v.k # "t" /\ (v.k = "null" => f.opt)
  /\ (v.k = "c" => ~v.empty) /\ (v.k = "e" => v.known) => VerdictIn(lang, f, v) = Verdict(f, v)
=============================================================================
