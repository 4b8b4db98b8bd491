------------------------------- MODULE JavaEval -------------------------------
(***************************************************************************)
(* Generated Java: what it declares and what it does.                       *)
(* Record = [decls, steps], a step is one of                                *)
(*  [op |-> "facts", name, suffix, found]                                    *)
(*     found = [what, methods, bases]                                       *)
(*  [op |-> "new", name, value]      a new object                           *)
(*  [op |-> "hold", name, given, value, copy, after]                         *)
(*     value: what the getters give after setting given; copy: what those of *)
(*     the copy give; after: the value after everything was changed in the   *)
(*     copy                                                                  *)
(*  [op |-> "call", server, method, param, answer, fail, out]                *)
(*     out = [name, seen, read, err, result]                                 *)
(***************************************************************************)
EXTENDS JavaTypes, Rpc

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Say(c, what) == IF c THEN {} ELSE {what}


Facts(d, s) ==
  LET w == Want(d, s.name, s.suffix)
      ms == Range(s.found.methods)
  IN Say(s.found.what = w.what, <<"kind", s.found.what>>)
     \cup Say(Range(s.found.bases) = w.bases, <<"bases", s.found.bases>>)
     \cup Say(ms = w.methods, <<"missing", w.methods \ ms, "extra", ms \ w.methods>>)

Call(d, s) ==
  LET m == MethodOf(d, s.server, s.method)
  IN Say(s.out.name = ServerName(s.server), "name of the client")
     \cup (IF Len(s.out.seen) # 1 THEN {"number of requests"}
           ELSE LET r == s.out.seen[1]
                IN Say(r.server = ServerName(s.server), "server")
                   \cup Say(r.name = Key(s.server, s.method), "name")
                   \cup Say(r.id = m.id, "id")
                   \cup Say(Same(r.param, s.param), "param"))
     \cup Say((s.out.err # "") = (s.fail # ""), "error")
     \cup (IF s.fail # "" \/ m.res = "void" THEN Say(s.out.result = <<>> /\ s.out.read = <<>>, "result")
           ELSE Say(Len(s.out.result) = 1 /\ Same(s.out.result[1], s.answer), "result")
                \cup Say(s.out.read = <<[text |-> "the answer", type |-> Hump(m.res) \o "Impl"]>>, "what is read as the result"))

Judge1(d, s) ==
  CASE s.op = "facts" -> Facts(d, s)
    [] s.op = "new" -> Say(\A k \in DOMAIN s.value.m : s.value.m[k].v.k = "null", "a new object is not empty")
    [] s.op = "hold" -> Say(Same(s.value, s.given), "get after set") \cup Say(Same(s.copy, s.given), "copy")
                        \cup Say(Same(s.after, s.given), "changing the copy changes the original")
    [] OTHER -> Call(d, s)

Judge(run) == [steps |-> Map(run.steps, LAMBDA s : Judge1(run.decls, s))]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
