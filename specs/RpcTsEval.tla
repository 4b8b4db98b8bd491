----------------------------- MODULE RpcTsEval -----------------------------
(***************************************************************************)
(* Remote calls of generated TypeScript, alone and together with Go.        *)
(* Record = [decls, steps], a step is one of                                *)
(*  [op |-> "routes", server, ts, go, client, router]                        *)
(*     ts, go: the keys of the routers; client, router: names in TypeScript *)
(*  [op |-> "call", server, method, param, given, fail, out]                 *)
(*     a client that is answered with the JSON given, or fails;             *)
(*     out = [seen, err, result], seen[i] = [server, name, id, json]        *)
(*  [op |-> "route", server, path, given, answer, out]                       *)
(*     a router that is asked for path with the JSON given;                 *)
(*     out = [seen, err, json], seen[i] = [method, param]                   *)
(*  [op |-> "hop", server, method, param, answer, seen, err, result]         *)
(*     a client of one language and a server of the other                   *)
(*  [op |-> "id", server, method, param, ids, err, seen]                     *)
(*     the ids a router knows; what is called by the id of this method        *)
(***************************************************************************)
EXTENDS Rpc

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Say(c, what) == IF c THEN {} ELSE {what}

\* json is an object that denotes v, a data n
Denotes(d, n, v, json) == Same(v, DecodeData(d, n, json)) /\ Keys(d, One(n), json) = {}

Call(d, s) ==
  LET m == MethodOf(d, s.server, s.method)
  IN (IF Len(s.out.seen) # 1 THEN {"number of requests"}
      ELSE LET r == s.out.seen[1]
           IN Say(r.server = ServerName(s.server), "server")
              \cup Say(r.name = Key(s.server, s.method), "name")
              \cup Say(r.id = m.id, "id")
              \cup Say(Denotes(d, m.par, s.param, r.json), "param"))
     \cup Say(s.out.err = s.fail, "error")
     \cup (IF s.fail # "" THEN Say(s.out.result = <<>>, "result")
           ELSE IF m.res = "void" THEN Say(s.out.result = <<>>, "result")
           ELSE Say(Len(s.out.result) = 1 /\ Same(s.out.result[1], DecodeData(d, m.res, s.given)), "result"))

Route(d, s) ==
  IF s.path \notin Routes(d, s.server) THEN Say(s.out.seen = <<>> /\ s.out.json.k = "null", "unknown path")
  ELSE LET ms == AllMethods(d, s.server)
           m == ms[CHOOSE k \in DOMAIN ms : Key(s.server, ms[k].name) = s.path]
       IN Say(Len(s.out.seen) = 1 /\ s.out.seen[1].method = m.name /\ Same(s.out.seen[1].param, DecodeData(d, m.par, s.given)), "param")
          \cup Say(s.out.err = s.answer.err, "error")
          \cup Say(IF s.answer.err # "" \/ m.res = "void" THEN s.out.json.k = "null"
                   ELSE Denotes(d, m.res, s.answer.value, s.out.json), "result")

Hop(d, s) ==
  LET m == MethodOf(d, s.server, s.method)
  IN Say(Len(s.seen) = 1 /\ s.seen[1].method = m.name /\ Same(s.seen[1].param, s.param), "param")
     \cup Say(s.err = s.answer.err, "error")
     \cup Say(IF s.answer.err # "" \/ m.res = "void" THEN s.result = <<>>
              ELSE Len(s.result) = 1 /\ Same(s.result[1], s.answer.value), "result")

Id(d, s) ==
  LET ms == AllMethods(d, s.server)
      m == MethodOf(d, s.server, s.method)
  IN Say(Range(s.ids) = {x.id : x \in Range(ms)}, "ids")
     \cup (IF \E x \in Range(ms) : x.id = m.id /\ x.name # m.name THEN {}      \* ids of bases may be the same
           ELSE Say(s.err = "" /\ Len(s.seen) = 1 /\ s.seen[1].method = m.name /\ Same(s.seen[1].param, s.param), "method by id"))

Judge1(d, s) ==
  CASE s.op = "routes" -> Say(Range(s.ts) = Routes(d, s.server) /\ Range(s.go) = Routes(d, s.server), "routes")
                          \cup Say(s.router = ServerName(s.server) /\ s.client = ServerName(s.server), "names")
    [] s.op = "call" -> Call(d, s)
    [] s.op = "route" -> Route(d, s)
    [] s.op = "id" -> Id(d, s)
    [] OTHER -> Hop(d, s)

Judge(run) == [steps |-> Map(run.steps, LAMBDA s : Judge1(run.decls, s))]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
