--------------------------- MODULE PipelineTrace ----------------------------
(***************************************************************************)
(* Are recorded histories behaviours of Pipeline?  Record = one history:   *)
(*   [graph, steps |-> sequence of                                         *)
(*      [op |-> "edit", f, v] or                                           *)
(*      [op |-> "build", roots, t, verdict, seen |-> sequence of           *)
(*         [f, t, d]: digest d of all generated files of f for t,          *)
(*       strange |-> files that belong to no source]]                      *)
(* The digests of the files that the build does not renew must stay; made  *)
(* carries, over the whole history, which digest was seen for which        *)
(* (file, target, versions): that must be a function, injective in the     *)
(* version of the file itself.                                             *)
(***************************************************************************)
EXTENDS Base

Good == {"v1", "v2", "v3"}
P == INSTANCE Pipeline WITH Files <- {}, Targets <- {}, Bad <- {}, Graphs <- {},
                            graph <- <<>>, src <- <<>>, out <- <<>>, last <- <<>>

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Digest(step, f, t) ==
  LET m == Find(step.seen, LAMBDA x : x.f = f /\ x.t = t) IN IF m = <<>> THEN "" ELSE m[1].d

Judge(run) ==
  LET graph == [f \in DOMAIN run.graph |-> Range(run.graph[f])]
      Fs == DOMAIN graph
      Ts == {"go", "ts", "dart", "java"}
      RECURSIVE Walk(_, _, _, _, _)
      \* made: set of <<f, t, versions, digest>>; prev: digests before the step
      Walk(k, src, prev, made, errs) ==
        IF k > Len(run.steps) THEN errs
        ELSE LET s == run.steps[k]
             IN  IF s.op = "edit" THEN Walk(k + 1, [src EXCEPT ![s.f] = s.v], prev, made, errs)
                 ELSE LET roots == Range(s.roots)
                          ok   == P!Sound(graph, src, roots)
                          L    == IF ok THEN P!Reach(graph, roots) ELSE {}
                          now  == [x \in Fs \X Ts |-> Digest(s, x[1], x[2])]
                          mine == {<<f, s.t, P!Made(graph, src, f), now[<<f, s.t>>]>> : f \in L}
                          all  == made \cup mine
                          name(x) == x[1] \o "/" \o x[2]
                          e1 == IF s.verdict # (IF ok THEN "accept" ELSE "reject")
                                THEN {<<"verdict", k, s.verdict>>} ELSE {}
                          e2 == {<<IF ok THEN "foreign output changed" ELSE "refused build changed output", k, name(x)>> :
                                   x \in {x \in Fs \X Ts : ~(x[1] \in L /\ x[2] = s.t) /\ now[x] # prev[x]}}
                          e3 == {<<"no output", k, name(n)>> : n \in {n \in mine : n[4] = ""}}
                          e4 == {<<"same sources, other output", k, name(n)>> :
                                   n \in {n \in mine : \E m \in all : m[1] = n[1] /\ m[2] = n[2] /\ m[3] = n[3] /\ m[4] # n[4]}}
                          e5 == {<<"declarations changed, output did not", k, name(n)>> :
                                   n \in {n \in mine : \E m \in all :
                                     m[1] = n[1] /\ m[2] = n[2] /\ m[3][n[1]] # n[3][n[1]] /\ m[4] = n[4]}}
                          e6 == IF s.strange # <<>> THEN {<<IF ok THEN "strange files" ELSE "refused build left files", k, s.strange[1]>>} ELSE {}
                      IN  IF s.verdict # (IF ok THEN "accept" ELSE "reject")
                          THEN errs \cup e1 \cup e2         \* what follows tells nothing
                          ELSE Walk(k + 1, src, now, all, errs \cup e1 \cup e2 \cup e3 \cup e4 \cup e5 \cup e6)
  IN  Walk(1, [f \in Fs |-> "v1"], [x \in Fs \X Ts |-> ""], {}, {})

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit([errors |-> Judge(Runs[i + 1])])
Spec == Init /\ [][Next]_i
=============================================================================
