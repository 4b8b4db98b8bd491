-------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* Cached reads of a table.  The table is a version number that every write   *)
(* that succeeds increases; a query's right answer is the version.  Each       *)
(* operation is a sequence of events, any of which may fail:                  *)
(*   read   get, and unless it hits: query, set, unlock                      *)
(*   write  del (locks and drops the table's entries), exec, unlock           *)
(***************************************************************************)
EXTENDS Base

CONSTANTS Queries, MaxVersion, Clients

None == -1
VARIABLES version, cached, locked, pc, seen, outcome
vars == <<version, cached, locked, pc, seen, outcome>>
\* pc[c]: what client c does next; seen[c]: the version it has read; outcome[c]: of its last operation

Idle == [at |-> "idle", q |-> CHOOSE q \in Queries : TRUE, since |-> 0]
Init == /\ version = 0
        /\ cached = [q \in Queries |-> None]
        /\ locked = FALSE
        /\ pc = [c \in Clients |-> Idle]
        /\ seen = [c \in Clients |-> None]
        /\ outcome = [c \in Clients |-> [op |-> "none"]]

At(c, l) == pc[c].at = l
Go(c, l) == pc' = [pc EXCEPT ![c].at = l]
End(c, o) == /\ pc' = [pc EXCEPT ![c] = Idle]
             /\ outcome' = [outcome EXCEPT ![c] = o]

Read(c, q) == /\ At(c, "idle")
              /\ pc' = [pc EXCEPT ![c] = [at |-> "get", q |-> q, since |-> version]]
              /\ UNCHANGED <<version, cached, locked, seen, outcome>>
\* a failing look-up is a miss
Get(c) == /\ At(c, "get")
          /\ \/ /\ cached[pc[c].q] # None
                /\ End(c, [op |-> "read", err |-> FALSE, version |-> cached[pc[c].q], since |-> pc[c].since])
             \/ /\ Go(c, "query") /\ UNCHANGED outcome
          /\ UNCHANGED <<version, cached, locked, seen>>
Query(c) == /\ At(c, "query")
            /\ \/ seen' = [seen EXCEPT ![c] = version] /\ Go(c, "set") /\ UNCHANGED outcome
               \/ End(c, [op |-> "read", err |-> TRUE]) /\ UNCHANGED seen
            /\ UNCHANGED <<version, cached, locked>>
\* storing takes the lock, or does not store
Set(c) == /\ At(c, "set")
          /\ \/ ~locked /\ locked' = TRUE /\ cached' = [cached EXCEPT ![pc[c].q] = seen[c]]
             \/ UNCHANGED <<locked, cached>>
          /\ Go(c, "unlock")
          /\ UNCHANGED <<version, seen, outcome>>
Unlock(c) == /\ At(c, "unlock")
             /\ locked' = FALSE
             /\ End(c, [op |-> "read", err |-> FALSE, version |-> seen[c], since |-> pc[c].since])
             /\ UNCHANGED <<version, cached, seen>>

Write(c) == /\ At(c, "idle") /\ version < MaxVersion /\ Go(c, "del")
            /\ UNCHANGED <<version, cached, locked, seen, outcome>>
Del(c) == /\ At(c, "del")
          /\ \/ /\ locked' = TRUE
                /\ cached' = [q \in Queries |-> None]
                /\ Go(c, "exec") /\ UNCHANGED outcome
             \/ /\ End(c, [op |-> "write", err |-> TRUE]) /\ UNCHANGED <<locked, cached>>
          /\ UNCHANGED <<version, seen>>
Exec(c) == /\ At(c, "exec")
           /\ \/ version' = version + 1 /\ Go(c, "wunlock")
              \/ version' = version /\ Go(c, "funlock")
           /\ UNCHANGED <<cached, locked, seen, outcome>>
WUnlock(c) == /\ pc[c].at \in {"wunlock", "funlock"}
              /\ locked' = FALSE
              /\ End(c, [op |-> "write", err |-> At(c, "funlock")])
              /\ UNCHANGED <<version, cached, seen>>

Next == \E c \in Clients : \/ \E q \in Queries : Read(c, q)
                           \/ Get(c) \/ Query(c) \/ Set(c) \/ Unlock(c) \/ Write(c) \/ Del(c) \/ Exec(c) \/ WUnlock(c)
Spec == Init /\ [][Next]_vars

Quiet == \A c \in Clients : At(c, "idle")
\* between operations: nothing stale, no lock
Fresh == Quiet => \A q \in Queries : cached[q] \in {None, version}
Unlocked == Quiet => ~locked
\* what a read returns is not older than the table was when the read began
ReadsFresh == \A c \in Clients : LET o == outcome[c] IN o.op = "read" /\ ~o.err => o.version >= o.since
=============================================================================
