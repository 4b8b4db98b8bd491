------------------------------ MODULE RefsEval -------------------------------
(***************************************************************************)
(* Judges builds of schemas that follow the rules and whose tags refer to     *)
(* something: records of PlacesEval with target, and places, the places of    *)
(* the word that the message points at.                                     *)
(***************************************************************************)
EXTENDS VerdictEval, Refs

Judged(run) ==
  LET ps   == Parsed(run)
      d    == Disk(run, ps)
      ld   == Loaded(run, d, DOMAIN d)
      sub  == [p \in ld |-> d[p]]
      w    == Wrong(sub, run.target)
      may  == Doubtful(sub, run.target)
      rule == Errors(sub)
  IN  [rules |-> rule, want |-> w,
       ok |-> IF rule # {} THEN FALSE
              ELSE \/ w = {} /\ run.verdict = "accept"
                   \/ run.verdict = "reject" /\ \E c \in may : \E a \in c.at : a = run.at]

RNext == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judged(Runs[i + 1]))
RSpec == Init /\ [][RNext]_i
=============================================================================
