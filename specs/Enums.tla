-------------------------------- MODULE Enums --------------------------------
(***************************************************************************)
(* An enum is a sequence of items [name, id]; what generated code knows of  *)
(* it in every language: the items by number and by name.  Numbers are texts *)
(* in canonical form (Names of items are distinct in their Hump form).      *)
(***************************************************************************)
EXTENDS Names

NameOf(items, v) == LET s == Find(items, LAMBDA x : x.id = v) IN IF s = <<>> THEN "none" ELSE Hump(s[1].name)
ValueOf(items, n) == LET s == Find(items, LAMBDA x : Hump(x.name) = n) IN IF s = <<>> THEN "none" ELSE s[1].id

\* the name of the constant of an item (in Go it stands after the name of the enum)
Const(lang, x) == IF lang = "go" THEN Hump(x.name) ELSE AllUpper(x.name)
\* the words of a name
Label(n) == LET ws == Map(Words(n), LowerStr) IN Capital(ws[1]) \o Join([k \in 1..(Len(ws) - 1) |-> " " \o ws[k + 1]], "")
\* how an item is shown: in TypeScript by the key of its text, in Dart, where the enum is shown at all, by its text in
\* the language of the user or its words
Text(lang, enum, x, ui, locale) ==
  CASE lang = "ts" -> FirstLower(enum) \o "Lang." \o Hump(x.name)
    [] lang = "dart" /\ ui -> LET s == Find(x.texts, LAMBDA t : t.lang = locale) IN IF s = <<>> THEN Label(x.name) ELSE s[1].text
    [] OTHER -> Hump(x.name)

Entry(lang, enum, x, ui, locale) == [name |-> Hump(x.name), value |-> x.id, text |-> Text(lang, enum, x, ui, locale)]
=============================================================================
