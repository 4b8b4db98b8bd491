------------------------------- MODULE MC_Wire -------------------------------
(***************************************************************************)
(* Bounded check of Wire: for every value of a data with a base, nested      *)
(* data, lists, maps and optional fields, what the encoder writes denotes    *)
(* the value, has the keys of the fields only, and two encodings of          *)
(* different values differ.                                                  *)
(***************************************************************************)
EXTENDS Wire
CONSTANT Rich

T(of, opt, shape) == [of |-> of, opt |-> opt, shape |-> shape, copt |-> FALSE, key |-> "string", kopt |-> FALSE]
F(n, t) == [name |-> n, type |-> t, id |-> "0"]
Decls == <<
  [kind |-> "enum", name |-> "E", pkg |-> "p", bases |-> <<>>, fields |-> <<>>, items |-> <<[name |-> "On", id |-> "1"]>>],
  [kind |-> "data", name |-> "In", pkg |-> "p", bases |-> <<>>,
   fields |-> <<F("x", T("int64", FALSE, "one")), F("e", T("E", TRUE, "one"))>>, items |-> <<>>],
  [kind |-> "data", name |-> "Base", pkg |-> "p", bases |-> <<>>,
   fields |-> <<F("nickName", T("string", TRUE, "one"))>>, items |-> <<>>],
  [kind |-> "data", name |-> "Top", pkg |-> "p", bases |-> <<"Base">>,
   fields |-> <<F("in", T("In", FALSE, "one")), F("Opt", T("In", TRUE, "one")),
                F("l", T("In", TRUE, "list")), F("m", T("decimal", Rich, "map"))>>, items |-> <<>>]>>

Scal(of) == CASE of = "E" -> {[k |-> "enum", v |-> "1"], [k |-> "enum", v |-> "0"]}
              [] of = "string" -> {[k |-> "str", v |-> ""], [k |-> "str", v |-> "a"]}
              [] of = "int64" -> {[k |-> "int", v |-> "0"], [k |-> "int", v |-> "7"]}
              [] OTHER -> {[k |-> "dec", v |-> "1.5"]}
RECURSIVE Vals(_)
Ones(t) == (IF Kind(Decls, t.of) = "data"
            THEN LET fs == AllFields(Decls, t.of)
                     RECURSIVE G(_)
                     G(i) == IF i > Len(fs) THEN {<<>>}
                             ELSE {<<[n |-> fs[i].name, v |-> x]>> \o r : x \in Vals(fs[i].type), r \in G(i + 1)}
                 IN {[k |-> "data", m |-> s] : s \in G(1)}
            ELSE Scal(t.of)) \cup (IF t.opt THEN {Null} ELSE {})
Vals(t) ==
  CASE t.shape = "one" -> Ones(t)
    [] t.shape = "list" -> {[k |-> "list", l |-> s] : s \in {<<>>} \cup {<<x>> : x \in Ones(t)}
                                                        \cup (IF Rich THEN {<<x, y>> : x, y \in Ones(t)} ELSE {})}
    [] OTHER -> {[k |-> "map", m |-> s] : s \in {<<>>} \cup {<<[n |-> "k", v |-> x]>> : x \in Ones(t)}}

VARIABLE v
Init == v \in Ones(One("Top"))
Next == UNCHANGED v
Spec == Init /\ [][Next]_v

J == Encode(Decls, One("Top"), v)
RoundTrip == Same(Decode(Decls, One("Top"), J), v)
OwnKeys == Keys(Decls, One("Top"), J) = {}
NoNulls == Nulls(Decls, One("Top"), J) = {}
\* leaving optional things out and writing null are the same
NullIsAbsent ==
  LET J2 == [k |-> "obj", m |-> J.m \o Map(SelectSeq(AllFields(Decls, "Top"), LAMBDA f : Entry(J.m, Underline(f.name)) = <<>>),
                                          LAMBDA f : [n |-> Underline(f.name), v |-> Null])]
  IN Same(Decode(Decls, One("Top"), J2), v)
=============================================================================
