------------------------------- MODULE CliEval -------------------------------
(***************************************************************************)
(* Judges runs of the command line: [words, ok |-> exit status 0, files |->  *)
(* those that were written, imports |-> what generated Go imports].         *)
(***************************************************************************)
EXTENDS Cli

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Judge(run) ==
  LET w  == Done(run.words)
      st == Read(run.words)
  IN  [ok |-> run.ok = w.ok /\ (IF w.part # {} THEN Range(run.files) \subseteq w.part ELSE Range(run.files) = w.files /\ Range(run.imports) = w.imports), want |-> w,
       like |-> IF w.files = {} THEN <<>> ELSE <<st.i, st.t, st.p, OutOf(st.o)>>]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
