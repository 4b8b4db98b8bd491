------------------------------ MODULE MC_Verify ------------------------------
(***************************************************************************)
(* All fields of a few kinds with up to two formats of a small vocabulary,    *)
(* and all values of a small vocabulary: what a verdict must be, said in      *)
(* another way; every case is printed with its verdict for the replay.        *)
(***************************************************************************)
EXTENDS Verify

CONSTANTS MaxFormats, Emitting

N(n) == [neg |-> n < 0, int |-> DigitsOf(IF n < 0 THEN -n ELSE n), frac |-> <<>>]
X(item, code, on, null, min, max, reg) ==
  [item |-> item, msg |-> item, code |-> code, on |-> on, null |-> null, min |-> min, max |-> max, reg |-> reg]
Atom(set, lo, hi) == [set |-> set, lo |-> lo, hi |-> hi]
Reg == [from |-> TRUE, to |-> TRUE, atoms |-> <<Atom(<<"a", "b">>, 0, 3), Atom(<<"b", "c">>, 1, 1)>>]
Three == [from |-> FALSE, to |-> TRUE, atoms |-> <<Atom(<<"a">>, 3, 3)>>]

Pool == {X("plain", 1, FALSE, FALSE, <<>>, <<>>, <<>>), X("some", 2, TRUE, FALSE, <<>>, <<>>, <<>>),
         X("any", 3, TRUE, TRUE, <<>>, <<>>, <<>>), X("low", 4, TRUE, FALSE, <<N(2)>>, <<>>, <<>>),
         X("high", 5, TRUE, TRUE, <<>>, <<N(3)>>, <<>>), X("range", 6, TRUE, TRUE, <<N(1)>>, <<N(3)>>, <<>>)}
TextPool == Pool \cup {X("reg", 7, TRUE, FALSE, <<>>, <<>>, <<Reg>>), X("regopt", 8, TRUE, TRUE, <<>>, <<N(3)>>, <<Reg, Three>>)}

Lists(S) == UNION {{s \in [1..n -> S] : \A a, b \in 1..n : a # b => s[a] # s[b]} : n \in 0..MaxFormats}
Field(kind, opt, fs) == [name |-> "f", kind |-> kind, shape |-> "one", opt |-> opt, zero |-> TRUE, formats |-> fs]
Null == [k |-> "null"]
Numbers == {[k |-> "n", n |-> N(n)] : n \in -1..4}
Texts == {[k |-> "s", s |-> s] : s \in {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"c", "a">>, <<"b", "b", "b">>, <<"a", "a", "a", "c">>, <<"a", "a", "a", "a">>}}
Cases(kind, pool, vs) == UNION {{<<Field(kind, opt, fs), v>> : v \in IF opt THEN vs \cup {Null} ELSE vs} : opt \in BOOLEAN, fs \in Lists(pool)}

VARIABLES field, value, done
vars == <<field, value, done>>
Init == /\ \E c \in Cases("int", Pool, Numbers) \cup Cases("str", TextPool, Texts) : field = c[1] /\ value = c[2]
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<field, value>>
        /\ Emitting => Emit([field |-> field, value |-> value, verdict |-> Verdict(field, value)])
Spec == Init /\ [][Next]_vars

V == Verdict(field, value)
On == Formats(field)
Absent == field.opt /\ Nothing(field, value)
\* only items of the field's formats are answered, and only such that carry a format
Known == V # "" => \E x \in Range(On) : x.item = V
NullRule == Absent /\ On # <<>> => (V = "" <=> On[1].null)
AllHold == ~Absent /\ value.k # "null" => (V = "" <=> \A x \in Range(On) : Holds(x, value))
FirstFails == ~Absent /\ value.k # "null" /\ V # "" =>
                 \E n \in DOMAIN On : On[n].item = V /\ ~Holds(On[n], value) /\ \A m \in 1..(n - 1) : Holds(On[m], value)
PlainIgnored == V = Verdict([field EXCEPT !.formats = On], value)
\* one more format never makes an invalid value valid, but for null
MoreIsStricter == ~Absent => (V # "" => \A x \in Pool : Verdict([field EXCEPT !.formats = Append(@, x)], value) # "")
\* numbers
ASSUME \A a, b \in -12..12 : Less(N(a), N(b)) <=> a < b
ASSUME LET q(n, f) == [N(n) EXCEPT !.frac = f]
           fs == {<<>>, <<5>>, <<2, 5>>, <<0, 5>>}
       IN \A a, b \in 0..2, f, g \in fs : Less(q(a, f), q(b, g)) <=> (a < b \/ (a = b /\ DigitsLess(f, g, 1)))
\* patterns: the same by splitting the text
ASSUME \A s \in {t.s : t \in Texts} :
         Fits(Reg, s) <=> /\ Len(s) \in 1..4
                          /\ s[Len(s)] \in {"b", "c"}
                          /\ \A n \in 1..(Len(s) - 1) : s[n] \in {"a", "b"}
=============================================================================
