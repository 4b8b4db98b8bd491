------------------------------ MODULE MC_Loader -----------------------------
(***************************************************************************)
(* The loading algorithm: a worklist, in whatever order.  For every import *)
(* graph over a few files, some of which do not exist, every order ends,   *)
(* and ends with the same set of files.  Each (graph, roots) is emitted    *)
(* with the predicted outcome and compiled for real by the driver.         *)
(***************************************************************************)
EXTENDS Loader

CONSTANTS Names, Ghosts        \* files on disk / names that are not

VARIABLES graph, roots, pending, loaded, status
vars == <<graph, roots, pending, loaded, status>>

Tree == [p \in Names |-> [imports |-> graph[p]]]

\* a set as a sequence in some fixed order
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seq1(S \ {x})

Init == /\ graph \in [Names -> {Seq1(S) : S \in SUBSET (Names \cup Ghosts)}]
        /\ roots \in {{p} : p \in Names} \cup {Names}
        /\ pending = roots /\ loaded = {} /\ status = "start"

Start == /\ status = "start" /\ status' = "loading"
         /\ Emit([graph |-> graph, roots |-> roots, loads |-> Loads(Tree, roots), reached |-> Reached(Tree, roots) \cap Names])
         /\ UNCHANGED <<graph, roots, pending, loaded>>

Load(p) == /\ status = "loading" /\ p \in pending
           /\ IF p \in Names
              THEN /\ loaded' = loaded \cup {p}
                   /\ pending' = (pending \cup Range(graph[p])) \ loaded'
                   /\ status' = status
              ELSE /\ status' = "error" /\ UNCHANGED <<pending, loaded>>
           /\ UNCHANGED <<graph, roots>>

Finish == /\ status = "loading" /\ pending = {} /\ status' = "done"
          /\ UNCHANGED <<graph, roots, pending, loaded>>

Next == Start \/ (\E p \in Names \cup Ghosts : Load(p)) \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == loaded \subseteq Names /\ pending \cap loaded = {}
\* the order does not matter
Confluent == status = "done" => loaded = Reached(Tree, roots) /\ Loads(Tree, roots)
Refuses   == status = "error" => ~Loads(Tree, roots)
\* nothing but what was asked for is ever read
Needed    == loaded \subseteq Reached(Tree, roots)
\* every step makes progress: each file is read at most once
Progress  == [][status = "loading" /\ status' = "loading" => Cardinality(loaded') = Cardinality(loaded) + 1]_vars
=============================================================================
