------------------------------ MODULE ViewsEval ------------------------------
(* Judges recorded views of generated TypeScript: one record per data and view. *)
EXTENDS Views

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

ValueOf(v, n) == Find(v.m, LAMBDA e : e.n = n)[1].v
FieldOf(decls, n, name) == Find(AllFields(decls, n), LAMBDA f : f.name = name)[1]
Differ(a, b) == {k \in DOMAIN a \cup DOMAIN b : k \notin DOMAIN a \/ k \notin DOMAIN b \/ (k \in DOMAIN a \cap DOMAIN b /\ a[k] # b[k])}

View(r, s) ==
  LET fs == Items(r.decls, r.name, r.view)
      want == Map(fs, LAMBDA f : IF r.view = "form" THEN FormItem(r.decls, r.name, f, ValueOf(s.value, f.name))
                                 ELSE Column(r.decls, r.name, f, ValueOf(s.value, f.name)))
  IN IF Map(want, LAMBDA x : x.key) # Map(s.items, LAMBDA x : x.key) THEN {<<"items", "order">>}
     ELSE {<<want[k].key, d>> : k \in {j \in DOMAIN want : want[j] # s.items[j]}, d \in {"item"}}
          \cup (IF r.view = "form"
                THEN {<<s.value.m[k].n, "kept">> : k \in {j \in DOMAIN s.value.m :
                        s.after.m[j] # [n |-> s.value.m[j].n,
                                        v |-> LET f == FieldOf(r.decls, r.name, s.value.m[j].n)
                                              IN IF f \in Range(fs) THEN Kept(f, s.value.m[j].v) ELSE s.value.m[j].v]}}
                ELSE {<<s.value.m[k].n, "kept">> : k \in {j \in DOMAIN s.value.m : s.after.m[j] # s.value.m[j]}})

Event(r, e) == LET f == FieldOf(r.decls, r.name, e.field) IN IF e.now = After(f, e.event) THEN {} ELSE {<<e.field, "event", After(f, e.event)>>}

Judge(r) ==
  IF r.kind = "texts" THEN
    LET want == Texts(r.decls, r.name)
        have == {[lang |-> r.texts[k].lang, texts |-> Range(r.texts[k].texts)] : k \in DOMAIN r.texts}
    IN [wrong |-> {<<"texts", l>> : l \in (want \ have) \cup (have \ want)} \cup (IF Complete(r.decls, r.name) THEN {} ELSE {<<"specification">>})]
  ELSE IF r.exists # HasView(r.decls, r.name, r.view) THEN [wrong |-> {<<"exists">>}]
  ELSE [wrong |-> UNION {View(r, r.shows[k]) : k \in DOMAIN r.shows} \cup UNION {Event(r, r.events[k]) : k \in DOMAIN r.events}]

Init == i = 0
Next == /\ i < Len(Runs)
        /\ i' = i + 1
        /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
