-------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command line.  A reader goes through the words: a flag -n or --n      *)
(* takes its value from behind a "=" or from the next word, whatever that is; *)
(* -v may stand alone or have a truth value; "--", a word without a dash, "" *)
(* and "-" end the flags.  Of a flag given twice the last one counts.       *)
(***************************************************************************)
EXTENDS Base

Valued == {"o", "i", "t", "p"}
True  == {"1", "t", "T", "true", "TRUE", "True"}
False == {"0", "f", "F", "false", "FALSE", "False"}

\* mode: flags / value (of the flag wants) / rest / failed / help
Start == [mode |-> "flags", wants |-> "", o |-> "", i |-> "", t |-> "", p |-> "", v |-> FALSE]

Put(st, n, x) ==
  CASE n = "o" -> [st EXCEPT !.o = x, !.mode = "flags"]
    [] n = "i" -> [st EXCEPT !.i = x, !.mode = "flags"]
    [] n = "t" -> [st EXCEPT !.t = x, !.mode = "flags"]
    [] n = "p" -> [st EXCEPT !.p = x, !.mode = "flags"]

\* where the first "=" is, 0 if there is none; not at the begin
Eq(s) == LET e == {k \in 2..Len(s) : Char(s, k) = "="} IN IF e = {} THEN 0 ELSE CHOOSE k \in e : \A j \in e : k <= j

Flag(st, body) ==
  LET e == Eq(body)
      n == IF e = 0 THEN body ELSE SubSeq(body, 1, e - 1)
      x == IF e = 0 THEN "" ELSE SubSeq(body, e + 1, Len(body))
  IN  IF body = "" \/ Char(body, 1) \in {"-", "="} THEN [st EXCEPT !.mode = "failed"]
      ELSE IF n = "v"
           THEN IF e = 0 \/ x \in True THEN [st EXCEPT !.v = TRUE]
                ELSE IF x \in False THEN [st EXCEPT !.v = FALSE] ELSE [st EXCEPT !.mode = "failed"]
      ELSE IF n \in Valued THEN IF e = 0 THEN [st EXCEPT !.mode = "value", !.wants = n] ELSE Put(st, n, x)
      ELSE IF n \in {"h", "help"} THEN [st EXCEPT !.mode = "help"]
      ELSE [st EXCEPT !.mode = "failed"]

Word(st, w) ==
  CASE st.mode = "value" -> [Put(st, st.wants, w) EXCEPT !.wants = ""]
    [] st.mode = "flags" ->
         IF Len(w) < 2 \/ Char(w, 1) # "-" \/ w = "--" THEN [st EXCEPT !.mode = "rest"]
         ELSE Flag(st, IF Char(w, 2) = "-" THEN SubSeq(w, 3, Len(w)) ELSE SubSeq(w, 2, Len(w)))
    [] OTHER -> st

RECURSIVE ReadFrom(_, _, _)
ReadFrom(st, ws, k) == IF k > Len(ws) THEN st ELSE ReadFrom(Word(st, ws[k]), ws, k + 1)
Read(ws) == ReadFrom(Start, ws, 1)

---------------------------------------------------------------------------
Targets == {"go", "ts", "dart", "java"}

\* what is asked for: build with these settings, nothing (and success), or nothing since it is refused
Asked(ws) ==
  LET st == Read(ws)
  IN  IF st.mode \in {"value", "failed"} THEN "refuse"
      ELSE IF st.mode = "help" \/ st.v THEN "nothing"
      ELSE IF st.o = "" \/ st.i = "" \/ st.t \notin Targets THEN "refuse"
      ELSE "build"

\* a path without ".", ".." and empty parts
RECURSIVE PartsFrom(_, _, _)
PartsFrom(s, i, from) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF Char(s, i) = "/" THEN <<SubSeq(s, from, i - 1)>> \o PartsFrom(s, i + 1, i + 1)
  ELSE PartsFrom(s, i + 1, from)
RECURSIVE CleanFrom(_, _)
CleanFrom(ps, done) ==
  IF ps = <<>> THEN done
  ELSE CleanFrom(Tail(ps), IF Head(ps) \in {"", "."} THEN done
                           ELSE IF Head(ps) = ".." /\ done # <<>> THEN SubSeq(done, 1, Len(done) - 1)
                           ELSE Append(done, Head(ps)))
Clean(p) == CleanFrom(PartsFrom(p, 1, 1), <<>>)

\* the inputs of the check: src/a.hbuf, which imports src/b.hbuf
Select(i) ==
  CASE Clean(i) \in {<<"src", "a.hbuf">>, <<"src", "*.hbuf">>} -> {"a", "b"}
    [] Clean(i) = <<"src", "b.hbuf">> -> {"b"}
    [] OTHER -> {}
\* a directory, or in one that does not exist
Bad(i) == LET c == Clean(i) IN c = <<"src">> \/ Len(c) > 2 \/ (Len(c) = 2 /\ c[1] # "src")
GoPackage(f) == IF f = "a" THEN "x" ELSE "y"
UpperOf(f) == IF f = "a" THEN "A" ELSE "B"
Files(t, fs) ==
  CASE t = "go"   -> {GoPackage(f) \o "/" \o f \o ".data.go" : f \in fs}
    [] t \in {"ts", "dart"} -> {f \o ".data." \o t : f \in fs}
    [] OTHER      -> UNION {{UpperOf(f) \o k \o ".java" : k \in {"Data", "Enum", "Server"}} : f \in fs}
OutOf(o) == LET c == Clean(o) IN IF c = <<>> THEN "" ELSE Join(c, "/") \o "/"
Solid(o) == Clean(o) # <<>> /\ Clean(o)[1] = "file"         \* a file is there: no directory can be
\* there are directories where files of b would be, or they have no room
Stuck(o) == Clean(o) \in {<<"full">>, <<"dirs">>}

Done(ws) ==
  LET st == Read(ws)
      a  == Asked(ws)
      no == a = "refuse" \/ (a = "build" /\ (Bad(st.i) \/ (Select(st.i) # {} /\ (Solid(st.o) \/ Stuck(st.o)))))
      fs == IF a = "build" /\ ~no THEN Files(st.t, Select(st.i)) ELSE {}
      \* of a build that gets stuck some files may be there
      part == IF no /\ a = "build" /\ ~Bad(st.i) /\ Stuck(st.o) THEN Files(st.t, Select(st.i)) ELSE {}
  IN  [ok |-> ~no,
       part |-> {OutOf(st.o) \o f : f \in part},
       files |-> {OutOf(st.o) \o f : f \in fs},
       imports |-> IF fs # {} /\ st.t = "go" /\ "a" \in Select(st.i) THEN {st.p \o "y"} ELSE {}]
=============================================================================
