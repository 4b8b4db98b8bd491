------------------------------- MODULE MC_Views -------------------------------
(***************************************************************************)
(* All arrangements of the items of a small view: every position list, set of  *)
(* hidden keys and set of slots.  Laws of Arranged, and cases to replay.       *)
(***************************************************************************)
EXTENDS Views

CONSTANTS MaxPosition, MaxSlots

KeySeq == <<"userId", "note", "kind">>      \* as declared
All == Range(KeySeq) \cup {"extra", "none"}
Slots == {s \in UNION {[1..n -> All] : n \in 0..MaxSlots} : \A a, b \in DOMAIN s : s[a] = s[b] => a = b}
Positions == UNION {[1..n -> All] : n \in 0..MaxPosition}

VARIABLES slots, position, hide
vars == <<slots, position, hide>>

Init == /\ slots \in Slots
        /\ position \in Positions
        /\ hide \in SUBSET All
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

A == Arranged(KeySeq, slots, position, hide)
Known == Range(KeySeq) \cup Range(slots)
Index(s, x) == CHOOSE k \in DOMAIN s : s[k] = x

NoneTwice == \A a, b \in DOMAIN A : A[a] = A[b] => a = b
OnlyKnown == Range(A) \subseteq Known
\* what is shown: everything that is not hidden or is given a place
Which == Range(A) = {k \in Known : k \notin hide \/ k \in Range(position)}
\* the front is in the order of position
FrontOrder == \A a, b \in DOMAIN A : a < b /\ {A[a], A[b]} \subseteq Range(position) => Index(position, A[a]) < Index(position, A[b])
\* the rest comes after it, in the order of declaration
RestOrder == \A a, b \in DOMAIN A : a < b /\ {A[a], A[b]} \subseteq Range(KeySeq) \ Range(position) => Index(KeySeq, A[a]) < Index(KeySeq, A[b])
FrontFirst == \A a, b \in DOMAIN A : A[a] \notin Range(position) /\ A[b] \in Range(position) => b < a
\* nothing asked for: as declared
Plain == slots = <<>> /\ position = <<>> /\ hide = {} => A = KeySeq

Cases == Emit([slots |-> slots, position |-> position, hide |-> hide, shown |-> Map(A, LAMBDA k : IF k \in Range(slots) THEN "slot:" \o k ELSE k)])
=============================================================================
