----------------------------- MODULE CacheTrace -----------------------------
(***************************************************************************)
(* Record = [table, min, max, steps]: a history of operations of cached types  *)
(* on one table, some with failing calls (fail: get, set, del of the cache,    *)
(* exec, query of the database).  Besides Db's meaning of the operations:     *)
(* errors change nothing, no lock stays, nothing stale is read (Cache.tla),   *)
(* what was read and not written since is answered without the database, and   *)
(* entries live within the bounds of the tag.                                *)
(***************************************************************************)
EXTENDS Db

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

\* an entry is kept in the wire format, where an empty collection (none) is as good as none
Same(a, b, none) == a = b \/ (b.k = "null" /\ a.k = "json" /\ a.v \in none)
Fills(want, got, none) ==
  /\ Len(want) = Len(got)
  /\ \A n \in DOMAIN want : \A f \in DOMAIN want[n] : f \in DOMAIN got[n] /\ Same(want[n][f], got[n][f], none)
FillsMap(want, got, key, none) ==
  /\ Len(want) = Len(got)
  /\ \A n \in DOMAIN want : \E m \in DOMAIN got :
       /\ got[m][""].v = want[n][key].v
       /\ \A f \in DOMAIN want[n] : f \in DOMAIN got[m] /\ Same(want[n][f], got[m][f], none)

Writing(s) == s.op.op \in {"insert", "inserts", "update", "set", "del", "rm"}
Fail(s, f) == f \in Range(s.fail)
Query(s) == <<s.type, s.op.op, s.g>>
Did(s, e) == e \in Range(s.log)
At(s, e) == CHOOSE n \in DOMAIN s.log : s.log[n] = e

\* an insert of nothing does not touch the table
Nothing(s) == s.op.op = "inserts" /\ s.list = <<>>

\* known: the queries whose answers must be in the cache
Judge1(table, min, max, empty, s, known) ==
  LET w == Apply([table EXCEPT !.own = s.own], s.fields, s.op, s.g, s.list, s.before)
      hit == Query(s) \in known /\ ~Fail(s, "get")
      must == IF Nothing(s) THEN FALSE ELSE IF Writing(s) THEN Fail(s, "del") \/ Fail(s, "exec") ELSE FALSE
      may == must \/ w.err \/ (~Writing(s) /\ Fail(s, "query") /\ ~hit)
      rows == IF s.err THEN s.before ELSE w.rows
      none == IF Did(s, "query") THEN {} ELSE Range(empty)
      good == IF w.err THEN FALSE
              ELSE w.count = s.count /\ (IF s.op.op = "map" THEN FillsMap(w.result, s.result, s.op.key, none) ELSE Fills(w.result, s.result, none))
  IN  (IF rows = s.after THEN {} ELSE {"rows"}) \cup
      (IF s.err THEN (IF may THEN {} ELSE {"failure"})
       ELSE (IF must THEN {"success"} ELSE {}) \cup (IF good THEN {} ELSE {"result"})) \cup
      (IF s.locked THEN {"locked"} ELSE {}) \cup
      (IF hit /\ Did(s, "query") THEN {"not from the cache"} ELSE {}) \cup
      (IF Writing(s) /\ Did(s, "exec") /\
          ~(\E d, e, u \in DOMAIN s.log : d < e /\ e < u /\ s.log[d] = "del" /\ s.log[e] = "exec" /\ s.log[u] = "unlock")
       THEN {"written without the lock"} ELSE {}) \cup
      (IF \A t \in Range(s.ttl) : min <= t /\ t <= max THEN {} ELSE {"time to live"})

After(s, known) ==
  IF Writing(s) THEN (IF Nothing(s) \/ ~Did(s, "del") THEN known ELSE {})
  ELSE IF s.err THEN known
  ELSE IF Did(s, "query") /\ (Fail(s, "set") \/ Fail(s, "get")) THEN known
  ELSE known \cup {Query(s)}

RECURSIVE Walk(_, _, _)
Walk(run, n, known) ==
  IF n > Len(run.steps) THEN <<>>
  ELSE LET s == run.steps[n]
       IN  <<Judge1(run.table, run.min, run.max, run.none, s, known)>> \o Walk(run, n + 1, After(s, known))

Judge(run) == [steps |-> Walk(run, 1, {})]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
