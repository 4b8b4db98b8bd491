------------------------------ MODULE FormsEval ------------------------------
(***************************************************************************)
(* Record = [lang, field, values, got]: a validated field, values or texts, and what  *)
(* its generated form validation said about each: the texts it called back      *)
(* with ("" for no error), key |-> the key of the text of every format item.     *)
(***************************************************************************)
EXTENDS Forms

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Key(f, item) == IF item = "" THEN "" ELSE LET x == CHOOSE x \in Range(f.formats) : x.item = item IN x.key

Judge(run) ==
  LET f == run.field
      want == [n \in DOMAIN run.values |-> VerdictIn(run.lang, f, run.values[n])]
  IN [want |-> want,
      bad |-> {n \in DOMAIN want : run.got[n] # <<Key(f, want[n])>>},
      strange |-> {n \in DOMAIN want : ~AgreeIn(run.lang, f, run.values[n])}]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
