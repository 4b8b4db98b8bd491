------------------------------ MODULE EnumEval ------------------------------
(***************************************************************************)
(* Record = [enum, ui, items, numbers, names, langs], a sequence of          *)
(*   [lang, locale, items, consts, byValue, byName, equal]                          *)
(* with what the generated code of a language says: its items in order,      *)
(* [name, value, text]; its constants (name to value); the name of every one  *)
(* of numbers and the value of every one of names ("none"); which items are   *)
(* equal (not for Go and TypeScript, which have their own equality).         *)
(***************************************************************************)
EXTENDS Enums

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Say(c, what) == IF c THEN {} ELSE {what}

Lang(run, l) ==
  LET items == run.items
      want == Map(items, LAMBDA x : Entry(l.lang, run.enum, x, run.ui, l.locale))
      got == l.items
      consts == {<<Const(l.lang, items[k]), items[k].id>> : k \in DOMAIN items}
  IN \* in Go the items are those of a map
     Say(IF l.lang = "go" THEN Range(got) = {[e EXCEPT !.text = e.name] : e \in Range(want)} /\ Len(got) = Len(want) ELSE got = want, "items")
     \cup Say({<<k, l.consts[k]>> : k \in DOMAIN l.consts} = consts, "constants")
     \cup Say(l.byValue = Map(run.numbers, LAMBDA v : NameOf(items, v)), "items by number")
     \cup Say(l.byName = Map(run.names, LAMBDA n : ValueOf(items, n)), "items by name")
     \cup Say(l.lang \in {"go", "ts"} \/ Range(l.equal) = {<<items[k].id, items[k].id>> : k \in DOMAIN items}, "equal items")

Judge(run) == [langs |-> Map(run.langs, LAMBDA l : Lang(run, l))]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
