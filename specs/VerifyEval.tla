----------------------------- MODULE VerifyEval -----------------------------
(***************************************************************************)
(* Record = [fields, values, got, whole]: the fields of a data that have a      *)
(* verify tag, their values, and what the generated functions answered:        *)
(* got[n] = [err, msg, code] that of field n, whole that of the data, if any.   *)
(***************************************************************************)
EXTENDS Verify

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

The(fs, item) == CHOOSE x \in UNION {Range(f.formats) : f \in Range(fs)} : x.item = item

Judge(run) ==
  LET want == [n \in DOMAIN run.fields |-> Verdict(run.fields[n], run.values[n])]
      data == DataVerdict(run.fields, run.values)
      right(w, g) == IF w = "" THEN ~g.err ELSE g.err /\ g.msg = The(run.fields, w).msg /\ g.code = The(run.fields, w).code
      bad == {n \in DOMAIN want : ~right(want[n], run.got[n])}
  IN  [want |-> want, data |-> data, bad |-> bad,
       whole |-> IF run.whole = <<>> THEN TRUE ELSE right(data, run.whole[1])]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
