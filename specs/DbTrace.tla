------------------------------- MODULE DbTrace -------------------------------
(***************************************************************************)
(* Record = [table, steps]: a history of operations of generated code on one  *)
(* table.  step = [op, type, own, fields, g, list, before, after, err, count, *)
(* result].  Every step must be one that the specification allows from the    *)
(* rows before it.                                                          *)
(***************************************************************************)
EXTENDS Db

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

\* the result as far as the operation is to fill it
Fills(want, got) == /\ Len(want) = Len(got)
                    /\ \A n \in DOMAIN want : \A f \in DOMAIN want[n] : f \in DOMAIN got[n] /\ got[n][f] = want[n][f]
\* a map: entries with their keys, in any order
FillsMap(want, got, key) ==
  /\ Len(want) = Len(got)
  /\ \A n \in DOMAIN want : \E m \in DOMAIN got :
       /\ got[m][""].v = want[n][key].v
       /\ \A f \in DOMAIN want[n] : f \in DOMAIN got[m] /\ got[m][f] = want[n][f]

Judge1(table, s) ==
  LET w == Apply([table EXCEPT !.own = s.own], s.fields, s.op, s.g, s.list, s.before)
      bad == IF w.err THEN (IF s.err THEN {} ELSE {"success"})
             ELSE IF s.err THEN {"failure"}
             ELSE (IF w.count = s.count THEN {} ELSE {"count"}) \cup
                  (IF (IF s.op.op = "map" THEN FillsMap(w.result, s.result, s.op.key) ELSE Fills(w.result, s.result)) THEN {} ELSE {"result"})
  IN  [bad |-> (IF w.rows = s.after THEN {} ELSE {"rows"}) \cup bad,
       want |-> IF w.rows = s.after /\ bad = {} THEN [n |-> 0] ELSE [rows |-> w.rows, err |-> w.err, count |-> w.count, result |-> w.result]]

Judge(run) == [steps |-> Map(run.steps, LAMBDA s : Judge1(run.table, s))]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
