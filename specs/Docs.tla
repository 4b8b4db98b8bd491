-------------------------------- MODULE Docs --------------------------------
(***************************************************************************)
(* Documentation.  Above a declaration stand lines [k, ws] of words ws:     *)
(*   trail      a comment behind the clause before                          *)
(*   blank      a line without anything                                     *)
(*   line, block, span, pair   // w, /* w */, /* w over two lines */, /* */ // *)
(*   bare, directive           //, //a:b, which say nothing                 *)
(*   tag        a tag, with or without a comment behind it                  *)
(* The documentation is the comment that ends right above the first token   *)
(* of the declaration, be that a tag; it is cut by blank lines.             *)
(***************************************************************************)
EXTENDS Model

Says(k) == k \in {"line", "block", "span", "pair"}
IsComment(k) == Says(k) \/ k \in {"bare", "directive"}

Start == [group |-> <<>>, doc |-> <<>>, met |-> FALSE]
Read(s, l) ==
  IF s.met THEN s
  ELSE IF l.k = "tag" THEN [s EXCEPT !.met = TRUE, !.doc = s.group]
  ELSE IF ~IsComment(l.k) THEN [s EXCEPT !.group = <<>>]
  ELSE IF Says(l.k) THEN [s EXCEPT !.group = @ \o l.ws] ELSE s
Said(s) == IF s.met THEN s.doc ELSE s.group

Doc(lines) == LET RECURSIVE F(_, _)
                  F(s, i) == IF i > Len(lines) THEN Said(s) ELSE F(Read(s, lines[i]), i + 1)
              IN F(Start, 1)

\* where the documentation of a declaration stands in the code of a target
At(place, owner, x) == [place |-> place, owner |-> owner, name |-> x.name, ws |-> Doc(x.lines)]
Each(places, owner, xs) == {At(p, owner, xs[i]) : p \in places, i \in DOMAIN xs}

OfData(t, ds, d) ==
  Each(CASE t = "go" -> {"field", "get", "set"}
         [] t = "ts" -> {"field"}
         [] OTHER -> {"get", "set"},
       d.name, IF t = "ts" THEN AllFields(ds, d.name) ELSE d.fields)
OfServer(t, ds, d) ==
  Each(IF t = "go" THEN {"method", "default method"} ELSE {"method"}, d.name, d.methods)
    \cup Each(IF t \in {"go", "ts"} THEN {"client method"} ELSE {}, d.name, AllMethods(ds, d.name))
    \cup (IF t = "go" THEN {At("default", d.name, d)} ELSE {})
Places(t, ds) ==
  {p \in UNION {{At("type", ds[i].name, ds[i])}
                  \cup (CASE ds[i].kind = "data" -> OfData(t, ds, ds[i])
                          [] ds[i].kind = "enum" -> Each({"item"}, ds[i].name, ds[i].items)
                          [] OTHER -> OfServer(t, ds, ds[i])) : i \in DOMAIN ds} : p.ws # <<>>}
=============================================================================
