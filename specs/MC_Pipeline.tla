---------------------------- MODULE MC_Pipeline -----------------------------
(* Checks Pipeline, and as a simulation emits histories to be replayed.    *)
EXTENDS Pipeline
CONSTANT Depth
VARIABLES hist, stale

F3 == {"a", "b", "c"}
\* chain, star, diamond-ish, two cycles, independent
G3 == { [a |-> {"b"}, b |-> {"c"}, c |-> {}],
        [a |-> {"b", "c"}, b |-> {}, c |-> {}],
        [a |-> {"b", "c"}, b |-> {"c"}, c |-> {}],
        [a |-> {"b"}, b |-> {"a"}, c |-> {"a"}],
        [a |-> {"b"}, b |-> {"c"}, c |-> {"a"}],
        [a |-> {}, b |-> {"c"}, c |-> {}] }

Init == PInit /\ hist = <<>> /\ stale = 0
Next == /\ Len(hist) < Depth
        /\ PNext
        /\ hist' = Append(hist, last')
        /\ stale' = 0
        /\ (Len(hist) + 1 = Depth => Emit([graph |-> graph, steps |-> hist']))
Spec == Init /\ [][Next]_<<pvars, hist, stale>>
View == <<graph, src, out, last>>

\* for the exhaustive run the history is not part of the state
NextX == PNext /\ UNCHANGED <<hist, stale>>
SpecX == Init /\ [][NextX]_<<pvars, hist, stale>>
=============================================================================
