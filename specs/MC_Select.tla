------------------------------ MODULE MC_Select ------------------------------
(***************************************************************************)
(* Rows of a table that are chosen by boxes: one at each row and one, of three *)
(* states, at the head.  A row of another page (Count + 1) may be chosen too.   *)
(* A click is a row, or 0 at the head.                                        *)
(***************************************************************************)
EXTENDS Base, FiniteSets

CONSTANTS MaxCount, MaxClicks

VARIABLES count, chosen, clicks, looks
vars == <<count, chosen, clicks, looks>>

Rows(n) == 1..n
HeadOf(n, c) == IF Rows(n) \subseteq c THEN "all" ELSE IF Rows(n) \cap c = {} THEN "none" ELSE "some"
RECURSIVE SortedFrom(_, _)
SortedFrom(c, k) == IF k > MaxCount + 1 THEN <<>> ELSE (IF k \in c THEN <<k>> ELSE <<>>) \o SortedFrom(c, k + 1)
Look(n, c, calls) == [head |-> HeadOf(n, c), three |-> TRUE, boxes |-> [k \in 1..n |-> k \in c], chosen |-> SortedFrom(c, 1), size |-> Cardinality(c), calls |-> calls, same |-> TRUE]

Init == /\ count \in 0..MaxCount
        /\ chosen \in SUBSET (1..(count + 1))
        /\ clicks = <<>>
        /\ looks = <<Look(count, chosen, 0)>>

Click(x, c) ==
  /\ Len(clicks) < MaxClicks
  /\ chosen' = c
  /\ clicks' = Append(clicks, x)
  /\ looks' = Append(looks, Look(count, c, Len(clicks) + 1))
  /\ UNCHANGED count
\* a click at the head takes all rows, or none at all if it has all
AtHead == Click(0, IF Rows(count) \subseteq chosen THEN {} ELSE chosen \cup Rows(count))
AtRow(k) == Click(k, IF k \in chosen THEN chosen \ {k} ELSE chosen \cup {k})
Next == AtHead \/ \E k \in Rows(count) : AtRow(k)
Spec == Init /\ [][Next]_vars

Last(s) == s[Len(s)]
Head2 == (Last(looks).head = "all") = (\A k \in Rows(count) : Last(looks).boxes[k])
None2 == (Last(looks).head = "none") => ~\E k \in Rows(count) : Last(looks).boxes[k]
\* two clicks at the head leave nothing or everything, one click at a row twice leaves all as it was
Twice == \A k \in 1..(Len(clicks) - 1) : clicks[k] = clicks[k + 1] =>
            IF clicks[k] = 0 THEN looks[k + 2].head = (IF looks[k].head = "all" /\ count > 0 THEN "all" ELSE IF count = 0 THEN "all" ELSE "none")
            ELSE looks[k + 2].chosen = looks[k].chosen
\* a click at a row changes that row alone
Alone == \A k \in DOMAIN clicks : clicks[k] # 0 => \A j \in Rows(count) : (looks[k].boxes[j] # looks[k + 1].boxes[j]) = (j = clicks[k])
Cases == Len(clicks) = MaxClicks => Emit([count |-> count, chosen |-> SortedFrom(Range(looks[1].chosen), 1), clicks |-> clicks, looks |-> looks])
=============================================================================
