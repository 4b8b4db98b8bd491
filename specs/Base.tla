-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Small vocabulary shared by all modules of the hbuf specification.       *)
(* Strings are TLC strings: Len, SubSeq and \o work on them.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Range(s) == {s[i] : i \in DOMAIN s}

Char(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> Char(s, i)]

\* prints a value for the conformance driver
Emit(v) == PrintT("CASE" \o ToJson(v))

\* first element of a sequence that satisfies P, as a 0/1 element sequence
Find(s, P(_)) == LET m == SelectSeq(s, P) IN IF m = <<>> THEN <<>> ELSE <<Head(m)>>

Filter(s, P(_)) == SelectSeq(s, P)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN ""
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

\* no two elements of s have the same image
Distinct(s, F(_)) == \A i, j \in 1..Len(s) : F(s[i]) = F(s[j]) => i = j

\* elements that occur again later in the sequence
Repeated(s) == {s[i] : i \in {i \in 1..Len(s) : \E j \in 1..Len(s) : j > i /\ s[j] = s[i]}}

\* least set containing s and closed under the successor operator N
Closure(s, N(_)) ==
  LET RECURSIVE C(_)
      C(x) == LET t == x \cup UNION {N(y) : y \in x} IN IF t = x THEN x ELSE C(t)
  IN  C(s)
=============================================================================
