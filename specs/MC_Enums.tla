------------------------------ MODULE MC_Enums ------------------------------
(***************************************************************************)
(* Enums as they develop: items are added, removed and moved.  Code that was *)
(* generated before and after a step must understand each other: an item that *)
(* stays has the same number and the same name.  Every enum that can come up  *)
(* is printed, to be generated in all languages.                            *)
(***************************************************************************)
EXTENDS Enums
CONSTANTS ItemNames, Ids, Max

VARIABLE items

Free(n, v) == \A i \in DOMAIN items : items[i].name # n /\ items[i].id # v
Without(i) == SubSeq(items, 1, i - 1) \o SubSeq(items, i + 1, Len(items))
Put(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

Init == items = <<>>
Add == Len(items) < Max /\ \E n \in ItemNames, v \in Ids : Free(n, v) /\ \E i \in 1..(Len(items) + 1) : items' = Put(items, i, [name |-> n, id |-> v])
Remove == \E i \in DOMAIN items : items' = Without(i)
Move == \E i, j \in DOMAIN items : items' = Put(Without(i), j, items[i]) /\ items' # items
Next == Add \/ Remove \/ Move
Spec == Init /\ [][Next]_items

Inverse == \A i \in DOMAIN items : /\ ValueOf(items, NameOf(items, items[i].id)) = items[i].id
                                   /\ NameOf(items, ValueOf(items, Hump(items[i].name))) = Hump(items[i].name)
Unknown == \A v \in Ids : NameOf(items, v) = "none" <=> \A i \in DOMAIN items : items[i].id # v
\* what one program sends by number, the other reads as the same item
StaysAs(old, new) == \A i \in DOMAIN old : (\E j \in DOMAIN new : new[j] = old[i]) => NameOf(new, old[i].id) = NameOf(old, old[i].id)
Stays == [][StaysAs(items, items')]_items
\* names of constants do not clash
Apart == \A lang \in {"go", "ts"} : Distinct(items, LAMBDA x : Const(lang, x))

Case == items = <<>> \/ Emit(items)
=============================================================================
