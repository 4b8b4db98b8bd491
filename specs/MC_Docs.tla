------------------------------- MODULE MC_Docs -------------------------------
(***************************************************************************)
(* All ways to write up to Max lines above a declaration.  s reads them as  *)
(* they come; what it says is the run of comments that ends right above.    *)
(***************************************************************************)
EXTENDS Docs

CONSTANTS Max

VARIABLES lines, s
vars == <<lines, s>>

Kinds == {"blank", "line", "block", "span", "pair", "bare", "directive", "tag"}
Told(n, k) == LET w == "w" \o ToString(n) IN
               IF k \in {"span", "pair"} THEN <<w \o "a", w \o "b">> ELSE IF k \in {"blank", "bare"} THEN <<>> ELSE <<w>>
Line(k) == [k |-> k, ws |-> Told(Len(lines) + 1, k)]

Init == lines = <<>> /\ s = Start
Write(k) == /\ Len(lines) < Max
            /\ lines' = Append(lines, Line(k))
            /\ s' = Read(s, Line(k))
Next == \/ \E k \in Kinds : Write(k)
        \/ lines = <<>> /\ Write("trail")
Spec == Init /\ [][Next]_vars

\* the lines before the first tag
Above == LET tags == {i \in DOMAIN lines : lines[i].k = "tag"}
         IN IF tags = {} THEN lines ELSE SubSeq(lines, 1, (CHOOSE i \in tags : \A j \in tags : i <= j) - 1)
From(n) == {i \in DOMAIN Above : \A j \in i..Len(Above) : IsComment(Above[j].k)}
Run == LET f == From(Len(Above)) IN IF f = {} THEN <<>> ELSE SubSeq(Above, CHOOSE i \in f : \A j \in f : i <= j, Len(Above))

SameAsRun == Said(s) = Concat(Map(Run, LAMBDA l : IF Says(l.k) THEN l.ws ELSE <<>>))
SameAsDoc == Said(s) = Doc(lines)
\* a blank line or a trailing comment right above leaves nothing
Cut == (Above # <<>> /\ ~IsComment(Above[Len(Above)].k)) => Said(s) = <<>>
\* what stands after a tag does not matter
AfterTag == [][s.met => Said(s') = Said(s)]_vars
Cases == Emit([lines |-> lines, doc |-> Said(s)])
=============================================================================
