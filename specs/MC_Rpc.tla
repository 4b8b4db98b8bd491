-------------------------------- MODULE MC_Rpc --------------------------------
(***************************************************************************)
(* All ways for up to three servers to share names of methods and to inherit *)
(* from each other: every call of a client reaches the server it was meant   *)
(* for, and nobody else, whatever servers are registered besides.            *)
(***************************************************************************)
EXTENDS Rpc

Names == <<"Base", "UserApi", "admin_log">>
CONSTANT MethodNames
M(n) == [name |-> n, res |-> "void", par |-> "A", id |-> "0", tags |-> <<>>, pname |-> "req"]
S(n, ms, bases) == [kind |-> "server", name |-> n, pkg |-> "p", bases |-> bases, fields |-> <<>>, items |-> <<>>,
                    methods |-> Map(ms, M)]
Seqs == {<<>>} \cup {<<a>> : a \in MethodNames} \cup {<<a, b>> : a, b \in MethodNames}
OwnLists == {s \in Seqs : Cardinality(Range(s)) = Len(s)}

VARIABLES decls, registered, call
vars == <<decls, registered, call>>
Init == /\ \E m1, m2, m3 \in OwnLists : \E b2 \in {<<>>, <<Names[1]>>} : \E b3 \in {<<>>, <<Names[1]>>, <<Names[2]>>, <<Names[1], Names[2]>>} :
             decls = <<S(Names[1], m1, <<>>), S(Names[2], m2, b2), S(Names[3], m3, b3)>>
        /\ registered \in SUBSET Range(Names)
        /\ call = <<>>
Next == /\ call = <<>>
        /\ \E s \in Range(Names) : \E k \in DOMAIN AllMethods(decls, s) : call' = <<s, AllMethods(decls, s)[k].name>>
        /\ UNCHANGED <<decls, registered>>
Spec == Init /\ [][Next]_vars

Reaches == call # <<>> => Answering(decls, registered, Path(call[1], call[2])) =
                            IF call[1] \in registered THEN {call} ELSE {}
OwnFirst == \A n \in Range(Names) : \A k \in DOMAIN D(decls, n).methods : AllMethods(decls, n)[k] = D(decls, n).methods[k]
Inherits == \A n \in Range(Names) : \A a \in Ancestors(decls, n) : \A k \in DOMAIN D(decls, a).methods :
              \E j \in DOMAIN AllMethods(decls, n) : AllMethods(decls, n)[j].name = D(decls, a).methods[k].name
=============================================================================
