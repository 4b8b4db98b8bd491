------------------------------ MODULE ScanEval -------------------------------
(***************************************************************************)
(* Judges builds of schemas with a text in a place: [place, text, ok |->     *)
(* built, means |-> the number, or the bytes of the text, in the code].      *)
(***************************************************************************)
EXTENDS Scan

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Judge(run) ==
  LET w == Fits(run.place, run.text)
      m == Means(run.place, run.text)
  IN  [ok |-> run.ok = w /\ (w /\ m # <<Unknown>> => run.means = m), want |-> w, means |-> m]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
