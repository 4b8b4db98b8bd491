-------------------------------- MODULE Verify --------------------------------
(***************************************************************************)
(* What the validation of fields means.                                      *)
(*                                                                          *)
(* field   [name, kind, shape, opt, formats]: kind of the values: int, num,    *)
(*         dec, date, str, enum, bool, data; formats in the order of the tag   *)
(* format  [item, msg, code, on, null, min, max, reg]: the enum item, its name  *)
(*         and value; on: it has a [format] tag at all; min, max: <<>> or <<number>> *)
(*         reg: <<>> or alternatives [from, to, atoms] (from: anchored at the beginning, *)
(*         to: at the end; atom [set, lo, hi]: lo to hi of these characters)    *)
(* value   [k |-> "null"], [k |-> "n", n |-> number], [k |-> "s", s |-> chars],  *)
(*         [k |-> "e", known |-> BOOLEAN], [k |-> "b"], [k |-> "c", empty]       *)
(*         (a list or map), [k |-> "d"] (a data)                             *)
(* number  [neg, int, frac]: digits (numbers 0..9) before and after the point,  *)
(*         without superfluous zeros                                          *)
(* A verdict is "" or the first item whose format does not hold.               *)
(***************************************************************************)
EXTENDS Base

(* ----------------------------------------------------------------- numbers *)
Digit(s, n) == IF n > Len(s) THEN 0 ELSE s[n]

RECURSIVE DigitsLess(_, _, _)
DigitsLess(a, b, n) ==
  IF n > Len(a) /\ n > Len(b) THEN FALSE
  ELSE IF Digit(a, n) # Digit(b, n) THEN Digit(a, n) < Digit(b, n)
  ELSE DigitsLess(a, b, n + 1)

SizeLess(a, b) == IF Len(a.int) # Len(b.int) THEN Len(a.int) < Len(b.int)
                  ELSE IF a.int # b.int THEN DigitsLess(a.int, b.int, 1)
                  ELSE DigitsLess(a.frac, b.frac, 1)

Less(a, b) == IF a.neg # b.neg THEN a.neg
              ELSE IF a.neg THEN SizeLess(b, a) ELSE SizeLess(a, b)

Within(f, n) == /\ \A m \in Range(f.min) : ~Less(n, m)
                /\ \A m \in Range(f.max) : ~Less(m, n)

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE DigitsOf(n \div 10) \o <<n % 10>>
Number(n) == [neg |-> FALSE, int |-> DigitsOf(n), frac |-> <<>>]

(* ----------------------------------------------------------------- patterns *)
\* the ends of matches of the atoms from place p of s
RECURSIVE Ends(_, _, _, _)
Ends(atoms, s, p, n) ==     \* n: how many of the first atom were seen
  IF atoms = <<>> THEN {p}
  ELSE LET a == Head(atoms)
       IN  (IF n >= a.lo THEN Ends(Tail(atoms), s, p, 0) ELSE {}) \cup
           (IF n < a.hi /\ p <= Len(s) /\ s[p] \in Range(a.set) THEN Ends(atoms, s, p + 1, n + 1) ELSE {})

Fits(r, s) == \E p \in (IF r.from THEN {1} ELSE 1..(Len(s) + 1)) :
                LET e == Ends(r.atoms, s, p, 0) IN IF r.to THEN (Len(s) + 1) \in e ELSE e # {}

(* ------------------------------------------------------------------- values *)
Zero(f) == CASE f.shape # "one" -> [k |-> "c", empty |-> TRUE]
             [] f.kind = "str" -> [k |-> "s", s |-> <<>>]
             [] f.kind = "enum" -> [k |-> "e", known |-> f.zero]
             [] f.kind = "bool" -> [k |-> "b"]
             [] f.kind = "data" -> [k |-> "d"]
             [] OTHER -> [k |-> "n", n |-> Number(0)]

\* nothing was given: null, and for text nothing but emptiness
Nothing(f, v) == v.k = "null" \/ (v.k = "s" /\ v.s = <<>>) \/ (v.k = "c" /\ f.kind = "str" /\ v.empty)

\* the format by itself
Holds(x, v) ==
  CASE v.k = "n" -> Within(x, v.n)
    [] v.k = "s" -> Within(x, Number(Len(v.s))) /\ (x.reg = <<>> \/ \E r \in Range(x.reg) : Fits(r, v.s))
    [] v.k = "e" -> v.known
    [] OTHER -> TRUE

RECURSIVE First(_, _)
First(xs, v) == IF xs = <<>> THEN "" ELSE IF Holds(Head(xs), v) THEN First(Tail(xs), v) ELSE Head(xs).item

Formats(f) == Filter(f.formats, LAMBDA x : x.on)

Verdict(f, v) ==
  LET xs == Formats(f)
  IN  IF xs = <<>> THEN ""
      ELSE IF f.opt /\ Nothing(f, v) THEN (IF xs[1].null THEN "" ELSE xs[1].item)
      ELSE First(xs, IF v.k = "null" THEN Zero(f) ELSE v)

\* a data: the first of its fields (inherited ones first) that is not valid
RECURSIVE FirstField(_, _, _)
FirstField(fs, vs, n) ==
  IF n > Len(fs) THEN "" ELSE LET w == Verdict(fs[n], vs[n]) IN IF w # "" THEN w ELSE FirstField(fs, vs, n + 1)
DataVerdict(fs, vs) == FirstField(fs, vs, 1)
=============================================================================
