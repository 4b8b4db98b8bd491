----------------------------- MODULE GoTypesEval -----------------------------
(***************************************************************************)
(* Record = [decls, structs, enums, ifaces]: what reflection over the       *)
(* compiled generated code found, each a record name -> sequence.           *)
(***************************************************************************)
EXTENDS GoTypes

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Diff(want, got) == [missing |-> want \ got, extra |-> got \ want]
Check(names, got, F(_)) ==
  LET bad == {n \in names : F(n) # Range(got[n])}
  IN {[name |-> n, diff |-> Diff(F(n), Range(got[n]))] : n \in bad}

Judge(run) ==
  LET d == run.decls
  IN [structs |-> Check(OfKind(d, "data"), run.structs, LAMBDA n : Struct(d, n)),
      enums |-> Check(OfKind(d, "enum"), run.enums, LAMBDA n : GoEnum(d, n)),
      ifaces |-> Check(OfKind(d, "server"), run.ifaces, LAMBDA n : GoInterface(d, n)),
      checked |-> Cardinality(OfKind(d, "data")) + Cardinality(OfKind(d, "enum")) + Cardinality(OfKind(d, "server"))]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
