------------------------------ MODULE MC_Rules ------------------------------
(***************************************************************************)
(* Every schema of two declarations over a tiny vocabulary, in one file or *)
(* in two files with and without imports, with the verdict of the rules.   *)
(* The driver compiles every one of them with the real compiler.           *)
(* The Author adds the declarations one at a time, so that TLC also checks *)
(* how verdicts evolve: a declaration that breaks a rule by itself cannot  *)
(* be repaired by adding unrelated ones.                                   *)
(***************************************************************************)
EXTENDS Rules

CONSTANT Big

None(kind, n) == [kind |-> kind, name |-> n, tags |-> <<>>, bases |-> <<>>, fields |-> <<>>,
                  items |-> <<>>, methods |-> <<>>]
Names == {"A", "B"}
BaseLists == {<<>>, <<"A">>, <<"B">>} \cup (IF Big THEN {<<"A", "B">>, <<"A", "A">>} ELSE {})
One(of) == [shape |-> "one", of |-> of, opt |-> TRUE, copt |-> FALSE, key |-> "", kopt |-> FALSE]
MapOf(k, o) == [shape |-> "map", of |-> "int8", opt |-> FALSE, copt |-> FALSE, key |-> k, kopt |-> o]
Types == {One(t) : t \in {"int8", "A", "B"}} \cup {MapOf(k, FALSE) : k \in Names}
         \cup (IF Big THEN {MapOf("string", TRUE), MapOf("date", FALSE), One("void")} ELSE {})
Fields == {<<>>} \cup {<<[name |-> "f", id |-> "1", tags |-> <<>>, type |-> t]>> : t \in Types}
Meth(r, ro, p) == [name |-> "m", id |-> "1", tags |-> <<>>, res |-> r, resopt |-> ro, par |-> p,
                   paropt |-> FALSE, pname |-> "req"]
Methods == {<<>>} \cup {<<Meth(r, FALSE, p)>> : r \in {"void", "A", "B"}, p \in Names}
           \cup (IF Big THEN {<<Meth("A", TRUE, "A")>>, <<Meth("int8", FALSE, "A")>>} ELSE {})

Decls == {[None("data", n) EXCEPT !.bases = b, !.fields = f] : n \in Names, b \in BaseLists, f \in Fields}
         \cup {[None("enum", n) EXCEPT !.items = <<[name |-> "On", id |-> "1", tags |-> <<>>]>>] : n \in Names}
         \cup {[None("server", n) EXCEPT !.bases = b, !.methods = m] : n \in Names, b \in BaseLists, m \in Methods}

\* same file; two files where x imports y; mutual import; no import
Layouts == {"one", "imp", "both", "none"}

VARIABLES d1, d2, layout
vars == <<d1, d2, layout>>
Nil == None("data", "")

DiskOf(a, b, l) ==
  IF l = "one" THEN [p \in {"x.hbuf"} |-> [imports |-> <<>>, decls |-> IF b = Nil THEN <<a>> ELSE <<a, b>>]]
  ELSE [p \in {"x.hbuf", "y.hbuf"} |->
          IF p = "x.hbuf" THEN [imports |-> IF l = "none" THEN <<>> ELSE <<"y.hbuf">>, decls |-> <<a>>]
          ELSE [imports |-> IF l = "both" THEN <<"x.hbuf">> ELSE <<>>, decls |-> IF b = Nil THEN <<>> ELSE <<b>>]]

Disk0 == DiskOf(d1, d2, layout)

Init == d1 \in Decls /\ d2 = Nil /\ layout \in Layouts
AddSecond == d2 = Nil /\ d2' \in Decls /\ UNCHANGED <<d1, layout>>
Next == AddSecond
Spec == Init /\ [][Next]_vars

Report == Emit([a |-> d1, b |-> d2, layout |-> layout, errors |-> Errors(Disk0)])

\* A name clash, a null key, a repeated base is not repaired by more declarations.
Local == {"name-clash", "dup-item", "key-null", "tag"}
Monotone == [][Errors(Disk0) \cap Local \subseteq Errors(Disk0')]_vars
\* A file never sees what its import imports: without an import nothing is shared.
Isolated == layout = "none" =>
            Errors(Disk0) = Errors([p \in {"x.hbuf"} |-> Disk0[p]]) \cup
                            (IF d2 = Nil THEN {} ELSE Errors([p \in {"y.hbuf"} |-> Disk0[p]]))
            \/ "cycle" \in Errors([p \in {"x.hbuf"} |-> Disk0[p]]) \cup Errors([p \in {"y.hbuf"} |-> Disk0[p]])
=============================================================================
