------------------------------- MODULE MC_Forms -------------------------------
(***************************************************************************)
(* MC_Verify for forms: fields with up to two formats, and what may be typed     *)
(* into them; every case is printed with its verdict for the replay.          *)
(***************************************************************************)
EXTENDS Forms

CONSTANTS MaxFormats, Emitting

Num(n) == [neg |-> n < 0, int |-> DigitsOf(IF n < 0 THEN -n ELSE n), frac |-> <<>>]
X(item, code, on, null, min, max, reg) ==
  [item |-> item, msg |-> item, code |-> code, on |-> on, null |-> null, min |-> min, max |-> max, reg |-> reg]
Atom(set, lo, hi) == [set |-> set, lo |-> lo, hi |-> hi]
Reg == [from |-> TRUE, to |-> TRUE, atoms |-> <<Atom(<<"a", "b">>, 0, 3), Atom(<<"b", "c">>, 1, 1)>>]
Three == [from |-> FALSE, to |-> TRUE, atoms |-> <<Atom(<<"a">>, 3, 3)>>]

Pool == {X("plain", 1, FALSE, FALSE, <<>>, <<>>, <<>>), X("some", 2, TRUE, FALSE, <<>>, <<>>, <<>>),
         X("any", 3, TRUE, TRUE, <<>>, <<>>, <<>>), X("low", 4, TRUE, FALSE, <<Num(2)>>, <<>>, <<>>),
         X("high", 5, TRUE, TRUE, <<>>, <<Num(3)>>, <<>>), X("range", 6, TRUE, TRUE, <<Num(1)>>, <<Num(3)>>, <<>>)}
TextPool == Pool \cup {X("reg", 7, TRUE, FALSE, <<>>, <<>>, <<Reg>>), X("regopt", 8, TRUE, TRUE, <<>>, <<Num(3)>>, <<Reg, Three>>)}

Lists(S) == UNION {{s \in [1..n -> S] : \A a, b \in 1..n : a # b => s[a] # s[b]} : n \in 0..MaxFormats}
Field(kind, of, opt, fs) == [name |-> "f", kind |-> kind, of |-> of, shape |-> "one", opt |-> opt, zero |-> TRUE, formats |-> fs]
Null == [k |-> "null"]
T(text) == [k |-> "t", s |-> Chars(text)]
Typable == {T(x) : x \in {"", "null", "undefined", "2", "-1", "02", "2.0", "3.01", "x", "2x", "20e-1", "-", "255", "256", "--1", "1e", "-0"}}
Numbers == {[k |-> "n", n |-> Num(n)] : n \in 0..4}
Texts == {T(x) : x \in {"", "null", "a", "b", "ab", "ca", "bbb", "aaac", "aaaa"}}
Cases(kind, of, pool, vs) ==
  UNION {{<<Field(kind, of, opt, fs), v>> : v \in IF opt THEN vs \cup {Null} ELSE vs} : opt \in BOOLEAN, fs \in Lists(pool)}

VARIABLES field, value, done
vars == <<field, value, done>>
Init == /\ \E c \in Cases("int", "uint8", Pool, Typable \cup Numbers) \cup Cases("dec", "decimal", Pool, Typable \cup Numbers)
                    \cup Cases("str", "string", TextPool, Texts) : field = c[1] /\ value = c[2]
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<field, value>>
        /\ Emitting => Emit([field |-> field, value |-> value, verdict |-> VerdictIn("ts", field, value), dart |-> VerdictIn("dart", field, value)])
Spec == Init /\ [][Next]_vars

Langs == DOMAIN NoValue
V(l) == VerdictIn(l, field, value)
On == Formats(field)
Absent(l) == field.opt /\ BlankIn(l, value)
Known == \A l \in Langs : V(l) # "" => \E x \in Range(On) : x.item = V(l)
NullRule == \A l \in Langs : Absent(l) /\ On # <<>> => (V(l) = "" <=> On[1].null)
ServerAgrees == \A l \in Langs : AgreeIn(l, field, value)
\* what is no value of the type is refused, by the first format
Refused == \A l \in Langs : ~Absent(l) /\ On # <<>> /\ Typed(field, value) = <<>> => V(l) = On[1].item
\* a text means what it stands for
SameAsTyped == \A l \in Langs : ~Absent(l) /\ Typed(field, value) # <<>> => V(l) = VerdictIn(l, field, Typed(field, value)[1])
\* what a form accepts, the server accepts
NoSurprise == \A l \in Langs : ~Absent(l) /\ value # Null /\ V(l) = "" /\ On # <<>> => Verdict(field, Typed(field, value)[1]) = ""
\* forms in two languages differ only in what they take for nothing
LangsAgree == V("ts") = V("dart") \/ Absent("ts") # Absent("dart")

ASSUME \A n \in -11..11, m \in -11..11 :
         LET t(k) == IF k < 0 THEN "-" \o ToString(-k) ELSE ToString(k)
         IN Read(Chars(t(n)), TRUE) = <<Num(n)>> /\ (Less(Read(Chars(t(n)), TRUE)[1], Read(Chars(t(m)), FALSE)[1]) <=> n < m)
R(x) == Read(Chars(x), FALSE)
ASSUME R("1.50") = R("15e-1") /\ R("0.5e1") = R("5") /\ R("-0.0") = R("0") /\ R("12e2") = R("1200.0") /\ R("1e-3") = R("0.001") /\ R("10e-1") = R("001")
ASSUME \A x \in {"", "-", ".", "1.", ".5", "1e", "1e+", "e1", "1 ", "a", "1-1", "--1", "1.2.3"} : R(x) = <<>>
=============================================================================
