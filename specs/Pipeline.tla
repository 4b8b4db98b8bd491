------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* A working directory over time: the author edits files, builds some of   *)
(* them for some target, and the generated files pile up in one output     *)
(* directory.                                                              *)
(*                                                                         *)
(*   src[f]     the version of file f that is on disk; a version is good,  *)
(*              or breaks the syntax, a schema rule or an import           *)
(*   out[f][t]  what the generated files of f for target t were made from: *)
(*              the versions of f and of all that f imports, or nothing    *)
(*                                                                         *)
(* A build that is refused leaves out alone; one that succeeds renews the  *)
(* outputs of exactly the files it loads, and what it writes for a file is *)
(* a function of that file and what it imports: not of the other files of  *)
(* the build, the order, the time or the earlier contents of out.          *)
(***************************************************************************)
EXTENDS Base

CONSTANTS Files, Targets, Good, Bad, Graphs

VARIABLES graph, src, out, last
pvars == <<graph, src, out, last>>

None == [x \in {} |-> 0]

Reach(g, S) == LET N(p) == g[p] IN Closure(S, N)
Sound(g, s, S) == \A p \in Reach(g, S) : s[p] \in Good
Made(g, s, f) == [x \in Reach(g, {f}) |-> s[x]]

PInit == /\ graph \in Graphs
         /\ src \in [Files -> {CHOOSE v \in Good : TRUE}]
         /\ out = [f \in Files |-> [t \in Targets |-> None]]
         /\ last = [op |-> "init"]

Edit(f, v) == /\ src[f] # v
              /\ src' = [src EXCEPT ![f] = v]
              /\ last' = [op |-> "edit", f |-> f, v |-> v]
              /\ UNCHANGED <<graph, out>>

Build(S, t) ==
  LET ok == Sound(graph, src, S)
      L  == Reach(graph, S)
  IN  /\ out' = IF ok THEN [f \in Files |-> IF f \in L THEN [out[f] EXCEPT ![t] = Made(graph, src, f)] ELSE out[f]]
                ELSE out
      /\ last' = [op |-> "build", roots |-> S, t |-> t, ok |-> ok]
      /\ UNCHANGED <<graph, src>>

PNext == \/ \E f \in Files, v \in Good \cup Bad : Edit(f, v)
         \/ \E S \in {{f} : f \in Files} \cup {Files}, t \in Targets : Build(S, t)

PSpec == PInit /\ [][PNext]_pvars

---------------------------------------------------------------------------
\* what is in out was made from good versions only
OnlyGood == \A f \in Files, t \in Targets : \A x \in DOMAIN out[f][t] : out[f][t][x] \in Good

\* after a successful build the outputs of the loaded files are up to date
UpToDate == last.op = "build" /\ last.ok =>
              \A f \in Reach(graph, last.roots) : out[f][last.t] = Made(graph, src, f)

\* building the same again changes nothing
Idempotent == [][last'.op = "build" /\ last'.ok /\ last.op = "build" /\ last.ok /\ last.t = last'.t
                 /\ last'.roots \subseteq last.roots => out' = out]_pvars

\* refused builds, and builds of other targets, change nothing
Untouched == [][\A f \in Files, t \in Targets : out'[f][t] # out[f][t] =>
                 /\ last'.op = "build" /\ last'.ok /\ last'.t = t /\ f \in Reach(graph, last'.roots)]_pvars
=============================================================================
