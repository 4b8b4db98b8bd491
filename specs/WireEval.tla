------------------------------ MODULE WireEval ------------------------------
(***************************************************************************)
(* Record = [decls, type, steps]; a step is one conversion of a data:       *)
(*   [op |-> "encode", value, json, getters, built]                          *)
(*   [op |-> "decode", json, value]                                         *)
(*   [op |-> "trip", value, back]    back: value after the way through other  *)
(*                                   languages                              *)
(*   [op |-> "clone", value, copy, after]    after: value, after its copy was *)
(*                                   changed wherever it can be             *)
(*   [op |-> "new", value]           what is there before anything is set     *)
(* Encoding must write JSON that denotes the value and nothing else;        *)
(* decoding must find what the JSON denotes; getters give the value or,     *)
(* where there is none, the default; setters build the value.               *)
(***************************************************************************)
EXTENDS Wire

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

\* what getters return: the default of the type for null
RECURSIVE Got(_, _, _)
Got(decls, t, v) == IF v.k = "null" THEN Default(decls, [t EXCEPT !.opt = FALSE]) ELSE v

Fields(decls, n, v, P(_, _)) ==
  LET fs == AllFields(decls, n)
  IN {fs[k].name : k \in {k \in DOMAIN fs : LET e == Entry(v.m, fs[k].name) IN e = <<>> \/ ~P(fs[k], e[1].v)}}

None == [value |-> {}, keys |-> {}, nulls |-> {}, getters |-> {}, built |-> {}]

Judge1(d, n, s) ==
  IF s.op = "encode" THEN
    [value |-> Fields(d, n, DecodeData(d, n, s.json),
                      LAMBDA f, x : LET e == Entry(s.value.m, f.name)
                                    IN Same(IF e = <<>> THEN Default(d, f.type) ELSE e[1].v, x)),
     keys |-> Keys(d, One(n), s.json),
     nulls |-> Nulls(d, One(n), s.json),
     getters |-> IF s.getters.k = "null" THEN {}
                 ELSE Fields(d, n, s.getters, LAMBDA f, x : LET e == Entry(s.value.m, f.name)
                                    IN Same(Got(d, f.type, IF e = <<>> THEN Default(d, f.type) ELSE e[1].v), x)),
     built |-> IF s.built.k = "null" THEN {}
               ELSE Fields(d, n, s.built, LAMBDA f, x : LET e == Entry(s.value.m, f.name)
                                    IN Same(IF e = <<>> THEN Default(d, f.type) ELSE e[1].v, x))]
  ELSE IF s.op = "trip" THEN
    [None EXCEPT !.value = Fields(d, n, s.back, LAMBDA f, x : Same(Entry(s.value.m, f.name)[1].v, x))]
  ELSE IF s.op = "clone" THEN
    [None EXCEPT !.value = Fields(d, n, s.copy, LAMBDA f, x : Same(Entry(s.value.m, f.name)[1].v, x)),
                 !.built = Fields(d, n, s.after, LAMBDA f, x : Entry(s.value.m, f.name)[1].v = x)]
  ELSE IF s.op = "new" THEN
    [None EXCEPT !.value = Fields(d, n, s.value, LAMBDA f, x : Same(Default(d, f.type), x))]
  ELSE
    [value |-> LET w == DecodeData(d, n, s.json)
               IN Fields(d, n, s.value, LAMBDA f, x : Same(Entry(w.m, f.name)[1].v, x)),
     keys |-> {}, nulls |-> {}, getters |-> {}, built |-> {}]

Judge(run) == [steps |-> Map(run.steps, LAMBDA s : Judge1(run.decls, run.type, s))]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
