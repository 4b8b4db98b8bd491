------------------------------ MODULE DocsEval ------------------------------
(***************************************************************************)
(* The comments of generated code against the documentation of its schema. *)
(* Record = [target, decls (each and its members with lines), seen |-> the  *)
(*           comments with words, as [place, owner, name, ws]].             *)
(***************************************************************************)
EXTENDS Docs

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Judge(run) ==
  LET want == Places(run.target, run.decls)
  IN  [want |-> Cardinality(want), missing |-> want \ Range(run.seen), extra |-> Range(run.seen) \ want,
       twice |-> Repeated(run.seen)]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
