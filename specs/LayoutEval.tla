----------------------------- MODULE LayoutEval -----------------------------
(***************************************************************************)
(* Two texts that differ in layout only denote the same declarations.      *)
(* Record = [texts |-> sequence of token sequences of one file,            *)
(*           verdicts, outs |-> per text: what the compiler said and a     *)
(*           digest of what it generated, comments apart].                 *)
(* Texts with equal declarations must have equal verdicts and outputs.     *)
(***************************************************************************)
EXTENDS Grammar

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Judge(run) ==
  LET ps == Map(run.texts, ParseFile)
      same == {k \in DOMAIN ps : ps[k].ok = ps[1].ok /\ ps[k].v = ps[1].v}
  IN  [parses |-> ps[1].ok, same |-> Cardinality(same),
       differ |-> {k \in same : run.verdicts[k] # run.verdicts[1] \/ run.outs[k] # run.outs[1]}]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
