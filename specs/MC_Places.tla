----------------------------- MODULE MC_Places ------------------------------
(***************************************************************************)
(* The places of Places.tla over the schemas of MC_Rules.                    *)
(***************************************************************************)
EXTENDS MC_Rules, Places

Placed == EveryErrorHasPlaces(Disk0)
\* a place is in a file and declaration that are there
Real == \A c \in Places(Disk0) : \E p \in DOMAIN Disk0 : \E i \in DOMAIN Disk0[p].decls :
          LET at == Sub(p, "d", i) IN SubSeq(c.at, 1, Len(at)) = at
\* what an unrelated second file breaks does not move what the first one breaks
Apart == layout = "none" /\ d2 # Nil =>
           \A c \in Places([p \in {"x.hbuf"} |-> Disk0[p]]) : c.class # "cycle" => c \in Places(Disk0)
=============================================================================
