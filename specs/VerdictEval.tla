---------------------------- MODULE VerdictEval -----------------------------
(***************************************************************************)
(* Judges recorded compiler runs.  Every record of in.ndjson is one run:   *)
(*   files   |-> sequence of [path, toks, imports]  what the author wrote  *)
(*   roots   |-> the files that the build was asked for                    *)
(*   verdict |-> what the compiler did: accept / reject / crash / hang     *)
(*   class   |-> class of the error message ("" if there is none)          *)
(* One step per record; the step reports what the specification demands.   *)
(***************************************************************************)
EXTENDS Rules, Grammar

Runs == ndJsonDeserialize("in.ndjson")

VARIABLE i

Parsed(run) == [k \in DOMAIN run.files |-> ParseFile(run.files[k].toks)]

\* the import literal of a file is resolved by the driver: imports maps it to a path
Resolve(f, lit) ==
  LET m == Find(f.imports, LAMBDA x : x.k = lit) IN IF m = <<>> THEN "?" ELSE m[1].v

Disk(run, ps) ==
  [p \in {run.files[k].path : k \in DOMAIN run.files} |->
     LET k == CHOOSE k \in DOMAIN run.files : run.files[k].path = p
     IN  IF ps[k].ok
         THEN [imports |-> Map(ps[k].v.imports, LAMBDA lit : Resolve(run.files[k], lit)),
               decls |-> ps[k].v.decls]
         ELSE [imports |-> <<>>, decls |-> <<>>]]

\* the files that the compiler reads: those it was asked for and what they import
Loaded(run, d, good) ==
  LET N(p) == IF p \in good THEN {q \in Range(d[p].imports) : q \in DOMAIN d} ELSE {}
  IN  Closure(Range(run.roots), N)

Judge(run) ==
  LET ps   == Parsed(run)
      good == {run.files[k].path : k \in {k \in DOMAIN ps : ps[k].ok}}
      d    == Disk(run, ps)
      ld   == Loaded(run, d, good)
      load == If(\E p \in ld : p \notin good, "syntax") \cup
              If(\E p \in ld \cap good : \E q \in Range(d[p].imports) : q \notin DOMAIN d, "import")
  IN  IF load # {} THEN load ELSE Errors([p \in ld |-> d[p]])

Verdict(run) ==
  LET es == Judge(run)
      want == IF es = {} THEN "accept" ELSE "reject"
  IN  [want |-> want, errors |-> es,
       ok |-> /\ run.verdict = want
              /\ run.class # "" => run.class \in es]

Init == i = 0
Next == /\ i < Len(Runs)
        /\ i' = i + 1
        /\ Emit(Verdict(Runs[i + 1]))
Spec == Init /\ [][Next]_i
AllJudged == TLCGet("stats").diameter - 1 = Len(Runs)
=============================================================================
