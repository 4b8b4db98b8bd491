----------------------------- MODULE LoaderEval -----------------------------
(***************************************************************************)
(* Judges recorded builds: record =                                        *)
(*   [files |-> sequence of [path, base, dirs, imports, kinds, pkg],       *)
(*    dirs, pattern, target, verdict, wrote |-> sequence of output paths]  *)
(***************************************************************************)
EXTENDS Loader

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Judge(run) ==
  LET tree  == [p \in {f.path : f \in Range(run.files)} |-> CHOOSE f \in Range(run.files) : f.path = p]
      roots == Roots(tree, run.dirs, run.pattern)
      good  == Loads(tree, roots)
      want  == IF good THEN Written(tree, roots, run.target) ELSE {}
  IN  [want |-> IF good THEN "accept" ELSE "reject",
       missing |-> want \ Range(run.wrote), extra |-> Range(run.wrote) \ want,
       ok |-> /\ run.verdict = (IF good THEN "accept" ELSE "reject")
              /\ want = Range(run.wrote)]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
