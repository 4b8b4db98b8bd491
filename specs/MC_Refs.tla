------------------------------ MODULE MC_Refs --------------------------------
(***************************************************************************)
(* The life of a reference: three files, one with the field or method that  *)
(* refers, something it refers to that moves between the files, changes   *)
(* its kind, and gets or loses the member; imports that come and go.          *)
(* Every state is given to the conformance driver.                           *)
(***************************************************************************)
EXTENDS Refs

CONSTANT Texts

Files == <<"a.hbuf", "b.hbuf", "c.hbuf">>
Edges == {<<1, 2>>, <<1, 3>>, <<2, 3>>, <<3, 1>>}

VARIABLES home, kind, member, edges, text, use, last
vars == <<home, kind, member, edges, text, use, last>>

Decl0(k, n) == [kind |-> k, name |-> n, tags |-> <<>>, bases |-> <<>>, fields |-> <<>>, items |-> <<>>, methods |-> <<>>]
Int8 == [shape |-> "one", of |-> "int8", opt |-> FALSE, copt |-> FALSE, key |-> "", kopt |-> FALSE]
TagOf(n, k, v) == <<[name |-> n, kvs |-> <<[k |-> k, v |-> <<v>>]>>]>>
FieldOf(n, id, tags) == [tags |-> tags, type |-> Int8, name |-> n, id |-> id]
MethodOf(n, id, tags, of) == [tags |-> tags, res |-> of, resopt |-> FALSE, name |-> n, par |-> of, paropt |-> FALSE, pname |-> "r", id |-> id]

Dest ==
  CASE kind = "enum"   -> [Decl0("enum", "To") EXCEPT !.items = IF member THEN <<[tags |-> <<>>, name |-> "it", id |-> "0"]>> ELSE <<>>]
    [] kind = "server" -> [Decl0("server", "To") EXCEPT !.methods = IF member THEN <<MethodOf("it", "0", <<>>, "D" \o ToString(home))>> ELSE <<>>]
    [] OTHER           -> [Decl0("data", "To") EXCEPT !.fields = IF member THEN <<FieldOf("it", "0", TagOf("db", "key", "true"))>> ELSE <<>>,
                                                             !.tags = IF member THEN TagOf("db", "name", "to") ELSE <<>>]

DbTag == IF use = "table" THEN TagOf("db", "table", text)
         ELSE IF use = "map" THEN <<[name |-> "db", kvs |-> <<[k |-> "table", v |-> <<"To">>], [k |-> "map", v |-> <<text \o ":parent">>]>>]>>
         ELSE <<>>
User(n) == [Decl0("data", "D" \o ToString(n)) EXCEPT !.tags = IF n = 1 THEN DbTag ELSE <<>>,
              !.fields = IF n = 1 THEN <<FieldOf("x", "0", IF use = "verify" THEN TagOf("verify", "format", text) ELSE <<>>)>> ELSE <<>>]
Asker(n) == [Decl0("server", "S" \o ToString(n)) EXCEPT !.methods = IF n = 1 THEN <<MethodOf("m", "0", IF use = "bind" THEN TagOf("bind", "value", text) ELSE <<>>, "D1")>> ELSE <<>>]

Disk ==
  [p \in {Files[n] : n \in 1..3} |->
     LET n == CHOOSE n \in 1..3 : Files[n] = p
     IN  [imports |-> [k \in 1..Cardinality({e \in edges : e[1] = n}) |->
                         LET s == {e[2] : e \in {e \in edges : e[1] = n}} IN Files[CHOOSE x \in s : Cardinality({y \in s : y < x}) = k - 1]],
          decls |-> (IF n = 1 THEN <<User(1), Asker(1)>> ELSE <<User(n)>>) \o (IF home = n THEN <<Dest>> ELSE <<>>)]]

Init == home = 1 /\ kind = "enum" /\ member = TRUE /\ edges = {<<1, 2>>} /\ text \in Texts /\ use \in {"verify", "bind", "table", "map"} /\ last = "start"

Next ==
  \/ \E h \in 1..3 : h # home /\ home' = h /\ last' = "move" /\ UNCHANGED <<kind, member, edges, text, use>>
  \/ \E k \in AllKinds : k # kind /\ kind' = k /\ last' = "kind" /\ UNCHANGED <<home, member, edges, text, use>>
  \/ member' = ~member /\ last' = "member" /\ UNCHANGED <<home, kind, edges, text, use>>
  \/ \E e \in Edges : edges' = (IF e \in edges THEN edges \ {e} ELSE edges \cup {e}) /\
                      last' = (IF e \in edges THEN "forget" ELSE "import") /\ UNCHANGED <<home, kind, member, text, use>>

Spec == Init /\ [][Next]_vars
View == <<home, kind, member, edges, text, use>>

Good(k) == Resolves(Disk, "a.hbuf", text, k)

Near == home = 1 \/ <<1, home>> \in edges
\* what a reference means does not depend on files that are neither its own nor imported by it
Local == /\ \A k \in {"enum", "server"} : Good(k) <=> kind = k /\ member /\ text = "To.it" /\ Near
         /\ IsTable(Disk, "a.hbuf", text) <=> kind = "data" /\ member /\ text = "To" /\ Near
\* what is wrong: that the reference of the state means nothing
Fine == CASE use = "verify" -> Good("enum")
          [] use = "bind"   -> Good("server")
          [] use = "table"  -> text = "" \/ IsTable(Disk, "a.hbuf", text)
          [] use = "map"    -> IsTable(Disk, "a.hbuf", "To") /\ text \in {"it", ""}
\* never both, and targets differ only in what they read
Once == ~(Good("enum") /\ Good("server"))
Order == /\ Wrong(Disk, "ts") = Wrong(Disk, "dart") /\ Wrong(Disk, "ts") \subseteq Wrong(Disk, "go") /\ Wrong(Disk, "java") = {}
         /\ (Wrong(Disk, "go") = {} <=> Fine)
\* schemas of the model follow the rules
Lawful == Errors(Disk) = {}
\* imports only help
Helps == [][last' = "import" => \A k \in {"enum", "server"} : Good(k) => Good(k)']_vars
Told == Emit([disk |-> Disk])
=============================================================================
