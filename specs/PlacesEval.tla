----------------------------- MODULE PlacesEval -----------------------------
(***************************************************************************)
(* Judges where refused builds point at.  A record is one of VerdictEval     *)
(* with at, the place of the word at the position of the message ("" if there *)
(* is none), name, what the message quotes, and words, the words (and line    *)
(* breaks) at the position by their numbers.                              *)
(***************************************************************************)
EXTENDS VerdictEval, Places

Wanted(run) ==
  LET ps   == Parsed(run)
      good == {run.files[k].path : k \in {k \in DOMAIN ps : ps[k].ok}}
      d    == Disk(run, ps)
      ld   == Loaded(run, d, good)
      lost == UNION {{C("import", Sub(p, "import", n), "") : n \in {n \in DOMAIN d[p].imports : d[p].imports[n] \notin DOMAIN d}} : p \in ld \cap good}
  IN  IF lost # {} THEN lost ELSE Places([p \in ld |-> d[p]])

\* the words that begin what word s ends wrongly: a package clause, the type of a method
Begun(toks, s) ==
  {n \in 1..(s - 1) : toks[n].t = "package" /\ \A m \in (n + 1)..(s - 1) : toks[m].t \in {"ident", "=", "str", "nl"}} \cup
  (IF s <= Len(toks) /\ toks[s].t \in {"[", "<"} THEN {n \in 1..(s - 1) : toks[n].t = "ident" /\ \A m \in (n + 1)..(s - 1) : toks[m].t \in {"?", "nl"}}
   ELSE {})
Blamed(toks, s) == {s} \cup Begun(toks, s)

\* a text outside the language: the first word that cannot follow those before it
Stops(run) ==
  LET ps == Parsed(run)
      d  == Disk(run, ps)
      ld == Loaded(run, d, {run.files[k].path : k \in {k \in DOMAIN ps : ps[k].ok}})
  IN  UNION {{C("syntax", Sub(run.files[k].path, "/", n), "") : n \in Blamed(run.files[k].toks, ps[k].stop)} :
               k \in {k \in DOMAIN ps : ~ps[k].ok /\ run.files[k].path \in ld}}

Pointed(run) ==
  IF run.class = "" THEN LET w == Stops(run) IN [want |-> w, ok |-> \E c \in w : c.at \in Range(run.words)]
  ELSE
  LET w == Wanted(run)
  IN  [want |-> w, ok |-> \E c \in w : c.class = run.class /\ c.at = run.at /\ c.name \in {"", run.name}]

PNext == i < Len(Runs) /\ i' = i + 1 /\ Emit(Pointed(Runs[i + 1]))
PSpec == Init /\ [][PNext]_i
=============================================================================
