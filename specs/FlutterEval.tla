----------------------------- MODULE FlutterEval -----------------------------
(* Judges recorded forms and tables of generated Dart: one record per data and view. *)
EXTENDS Flutter

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

ValueOf(v, n) == Find(v.m, LAMBDA e : e.n = n)[1].v
FieldOf(decls, n, name) == Find(AllFields(decls, n), LAMBDA f : f.name = name)[1]
Differ(a, b) == {k \in DOMAIN a \cup DOMAIN b : k \notin DOMAIN a \/ k \notin DOMAIN b \/ (k \in DOMAIN a \cap DOMAIN b /\ a[k] # b[k])}

\* the value of the data when the fields that have new values in m have them
With(v, m) == [v EXCEPT !.m = Map(@, LAMBDA e : LET s == Filter(m, LAMBDA x : x.n = e.n) IN IF s = <<>> THEN e ELSE [n |-> e.n, v |-> s[1].v])]
Members(a, b) == {a.m[j].n : j \in {k \in DOMAIN a.m : a.m[k] # b.m[k]}}

Form(r, s) ==
  LET fs == Controls(r.decls, r.name)
      want == Map(fs, LAMBDA f : At(r.decls, f, ValueOf(s.value, f.name), s.locale, s.readOnly))
      after == With(s.value, Map(fs, LAMBDA f : [n |-> f.name, v |-> Saved(r.decls, f, ValueOf(s.value, f.name), s.locale)]))
  IN (IF Map(want, LAMBDA x : x.key) # Map(s.items, LAMBDA x : x.key) THEN {<<"controls", "order">>}
      ELSE {<<want[k].key, d>> : k \in {j \in DOMAIN want : want[j] # s.items[j]}, d \in {"control"}})
     \cup {<<n, "saved">> : n \in Members(after, s.after)}
     \cup {<<n, "built">> : n \in Members(s.value, s.built)}
     \cup {<<fs[k].name, "specification">> : k \in {j \in DOMAIN fs : ~Laws(r.decls, fs[j], ValueOf(s.value, fs[j].name), s.locale)}}

Entry(r, e) ==
  LET f == FieldOf(r.decls, r.name, e.field)
      want == With(e.value, <<[n |-> f.name, v |-> Entered(f, e.entry)]>>)
  IN {<<e.field, "of", n, "entered", e.entry.k>> : n \in Members(want, e.now)}

Check(r, e) ==
  LET f == FieldOf(r.decls, r.name, e.field)
      want == IF Refused(f, e.text) THEN Hump(e.rule) ELSE ""
  IN IF e.said = want THEN {} ELSE {<<e.field, "check", want>>}

Table(r, s) ==
  LET want == [k \in DOMAIN Columned(r.decls, r.name) |-> ColumnAt(r.decls, r.name, k, s.values, s.locale)]
  IN (IF s.count = Len(s.values) /\ s.rows = [k \in DOMAIN s.values |-> k] THEN {} ELSE {<<"rows">>})
     \cup (IF Map(want, LAMBDA x : x.key) # Map(s.columns, LAMBDA x : x.key) THEN {<<"columns", "order">>}
           ELSE UNION {{<<want[k].key, d>> : d \in Differ(want[k], s.columns[k])} : k \in DOMAIN want})

Judge(r) ==
  IF r.exists # HasView(r.decls, r.name, r.view) THEN [wrong |-> {<<"exists">>}]
  ELSE IF r.view = "form" THEN [wrong |-> UNION {Form(r, r.shows[k]) : k \in DOMAIN r.shows} \cup UNION {Entry(r, r.entries[k]) : k \in DOMAIN r.entries}
                                          \cup UNION {Check(r, r.said[k]) : k \in DOMAIN r.said}]
  ELSE [wrong |-> UNION {Table(r, r.shows[k]) : k \in DOMAIN r.shows}]

Init == i = 0
Next == /\ i < Len(Runs)
        /\ i' = i + 1
        /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
