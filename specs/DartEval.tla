------------------------------- MODULE DartEval -------------------------------
(***************************************************************************)
(* Generated Dart: what it declares, copies and compares.                   *)
(* Record = [decls, steps], a step is one of                                *)
(*  [op |-> "facts", name, suffix, found]                                    *)
(*     found = [what, bases, fields, methods, create, with, statics]         *)
(*  [op |-> "with", name, value, change, copy, after]                        *)
(*     copy: the value, copied with change; after: the value afterwards      *)
(*  [op |-> "same", name, value, other, share, equal, back, hash, self]      *)
(*     whether the value equals the other one, the other one the value, their *)
(*     hashes agree and the value equals itself; share says whether equal     *)
(*     lists and maps of the two are the same objects (lists and maps of Dart *)
(*     equal nothing but themselves)                                         *)
(***************************************************************************)
EXTENDS DartTypes, Wire

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Say(c, what) == IF c THEN {} ELSE {what}
Differ(what, found, want) == Say(found = want, <<what, "missing", want \ found, "extra", found \ want>>)
Lacks(what, found, want) == Say(want \subseteq found, <<what, "missing", want \ found>>)

Facts(d, s) ==
  LET w == Want(d, s.name, s.suffix)
      f == [k \in {"bases", "fields", "methods", "create", "with", "statics"} |-> Range(s.found[k])]
      k == Kind(d, s.name)
  IN Say(s.found.what = w.what, <<"kind", s.found.what>>)
     \cup Differ("bases", f.bases, w.bases) \cup Lacks("methods", f.methods, w.methods) \cup Lacks("statics", f.statics, w.statics)
     \cup (IF k = "data" THEN Differ("fields", f.fields, w.fields) \cup Differ("create", f.create, w.create) \cup Differ("with", f.with, w.with)
           ELSE Lacks("fields", f.fields, w.fields))
     \cup (IF k = "server" /\ s.suffix = "" THEN Differ("methods", f.methods, w.methods) ELSE {})
     \cup (IF k = "server" /\ s.suffix # "" THEN Differ("create", f.create, w.create) ELSE {})

\* the entries that differ
Off(d, n, v, W(_)) ==
  LET fs == AllFields(d, n)
  IN {fs[k].name : k \in {k \in DOMAIN fs : LET e == Entry(v.m, fs[k].name) IN e = <<>> \/ ~Same(e[1].v, W(fs[k].name))}}
Changed(s, n) == LET e == Entry(s.change.m, n) IN IF e # <<>> /\ e[1].v.k # "null" THEN e[1].v ELSE Entry(s.value.m, n)[1].v

\* the equality of Dart
RECURSIVE Equal(_, _, _)
Equal(v, w, share) ==
  IF v.k = "data" /\ w.k = "data" THEN \A k \in DOMAIN v.m : Equal(v.m[k].v, Entry(w.m, v.m[k].n)[1].v, share)
  ELSE IF v.k \in {"list", "map"} THEN share /\ v = w
  ELSE v = w

Judge1(d, s) ==
  CASE s.op = "facts" -> Facts(d, s)
    [] s.op = "with" -> Say(Off(d, s.name, s.copy, LAMBDA n : Changed(s, n)) = {}, <<"copied", Off(d, s.name, s.copy, LAMBDA n : Changed(s, n))>>)
                        \cup Say(Off(d, s.name, s.after, LAMBDA n : Entry(s.value.m, n)[1].v) = {}, "the original has changed")
    [] OTHER -> LET e == Equal(s.value, s.other, s.share)
                IN Say(s.equal = e, "equal") \cup Say(s.back = e, "equal the other way round")
                   \cup Say(e => s.hash, "hash") \cup Say(s.self, "equal to itself")

Judge(run) == [steps |-> Map(run.steps, LAMBDA s : Judge1(run.decls, s))]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
