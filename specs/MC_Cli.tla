------------------------------- MODULE MC_Cli --------------------------------
(***************************************************************************)
(* Command lines that grow at both ends, from nothing or from one that is   *)
(* complete.  Every one is given to the conformance driver.                 *)
(***************************************************************************)
EXTENDS Cli

CONSTANTS Short, Long      \* how many groups are added to nothing and to a complete line

Groups == {<<"-o", "out">>, <<"--o=o2/sub">>, <<"-o">>, <<"-o=">>, <<"-o", "./o2/../out">>, <<"-o", "file">>, <<"-o", ".">>, <<"-o", "full">>, <<"-o=dirs">>,
           <<"-i", "src/a.hbuf">>, <<"--i=./src/../src/b.hbuf">>, <<"-i", "src/*.hbuf">>, <<"-i", "none.hbuf">>, <<"-i", "no/a.hbuf">>, <<"-i">>, <<"--i", "">>,
           <<"-t", "go">>, <<"-t=ts">>, <<"--t", "dart">>, <<"--t=java">>, <<"-t", "Go">>, <<"-t">>, <<"-t=">>,
           <<"-p", "demo/">>, <<"--p=a=b/">>, <<"-p", "-v">>,
           <<"-v">>, <<"--v=false">>, <<"-v=True">>, <<"-v=x">>, <<"--">>, <<"-">>, <<"rest">>, <<"-x">>, <<"--help">>, <<"-=t">>, <<"---t">>}

Full == <<"-o", "out", "-i", "src/a.hbuf", "-t", "go">>
Fuller == <<"-t", "java", "-p", "q/", "-i=src/*.hbuf", "-o=o3">>

VARIABLES words, left
vars == <<words, left>>
Init == \/ words = <<>> /\ left = Short
        \/ words \in {Full, Fuller} /\ left = Long
Next == left > 0 /\ left' = left - 1 /\ \E g \in Groups : words' \in {words \o g, g \o words}
Spec == Init /\ [][Next]_vars
View == words

St == Read(words)
Flags == St.mode = "flags"
\* spellings of the same flag
Spelling == Flags => \A f \in Valued : \A d \in {"-", "--"} :
              /\ Read(words \o <<d \o f, "go">>) = Read(words \o <<d \o f \o "=go">>)
              /\ Read(words \o <<d \o f, "go">>) = Put(St, f, "go")
\* what was given before is what holds if it is not given again
Default == LET after == Read(<<"-o=q">> \o words)
               given == Read(<<"-o=r">> \o words)
           IN  after = given \/ (after.o = "q" /\ given.o = "r" /\ [after EXCEPT !.o = "r"] = given)
\* behind the flags nothing counts
Rest == St.mode \in {"rest", "failed", "help"} => \A g \in Groups : Read(words \o g) = St
Ends == Flags => \A e \in {"--", "-", "x", ""} : Done(words \o <<e, "-v">>) = Done(words)
\* files are written only by complete lines
Complete == Done(words).files # {} => /\ Done(words).ok /\ Done(words).part = {} /\ ~St.v /\ St.o # "" /\ St.i # "" /\ St.t \in Targets
Shown == St.v /\ Asked(words) # "refuse" => Done(words) = [ok |-> TRUE, part |-> {}, files |-> {}, imports |-> {}]
Told == Emit([words |-> words])
=============================================================================
