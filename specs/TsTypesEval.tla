----------------------------- MODULE TsTypesEval -----------------------------
(***************************************************************************)
(* Record = [decls, homes, found]: homes[n] the base name of the file of n;   *)
(* found: what the type checker finds in the generated files,               *)
(* a sequence of [file, name, what, fields, methods, statics].              *)
(***************************************************************************)
EXTENDS TsTypes

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Want(run) ==
  UNION {LET n == run.decls[j].name
         IN {w @@ [file |-> run.homes[n] \o "." \o run.decls[j].kind \o ".ts"] : w \in What(run.decls, n)} : j \in DOMAIN run.decls}
Got(run) == {[name |-> x.name, file |-> x.file, what |-> x.what, fields |-> Range(x.fields), methods |-> Range(x.methods),
              statics |-> Range(x.statics)] : x \in Range(run.found)}

Key(w) == <<w.file, w.name>>
Judge(run) ==
  LET want == Want(run)
      got == Got(run)
      keys(s) == {Key(w) : w \in s}
      both == {p \in want \X got : Key(p[1]) = Key(p[2]) /\ p[1] # p[2]}
      diff(a, b) == [missing |-> a \ b, extra |-> b \ a]
  IN [missing |-> keys(want) \ keys(got), extra |-> keys(got) \ keys(want),
      differ |-> {[at |-> Key(p[1]), what |-> {p[1].what, p[2].what}, fields |-> diff(p[1].fields, p[2].fields),
                   methods |-> diff(p[1].methods, p[2].methods), statics |-> diff(p[1].statics, p[2].statics)] : p \in both},
      checked |-> Cardinality(want)]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
