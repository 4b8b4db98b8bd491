------------------------------- MODULE RpcEval -------------------------------
(***************************************************************************)
(* Record = [decls, steps], a step is one of                                *)
(*  [op |-> "routes", server, routes, router, client]                        *)
(*  [op |-> "call", servers, server, method, param, answer, out]             *)
(*     out = [err, code, result, seen, path, tags]                          *)
(*  [op |-> "raw", servers, path, body ("good"/"bad"), param, out]            *)
(*  [op |-> "default", servers, server, method, param, answer, bound, fields, *)
(*     values, out]: fields, values: what the request's own validation checks *)
(*     (see Verify.tla)                                                      *)
(*  [op |-> "getserver", server, here, found]                               *)
(***************************************************************************)
EXTENDS Rpc, Verify

Runs == ndJsonDeserialize("in.ndjson")
VARIABLE i

Say(c, what) == IF c THEN {} ELSE {what}
SameSeq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Same(a[k], b[k])

Seen(s, m, p, seen) == Len(seen) = 1 /\ seen[1].server = s /\ seen[1].method = m /\ Same(seen[1].param, p)
Tags(out) == {<<out.tags[k].k, out.tags[k].v>> : k \in DOMAIN out.tags}

Call(d, s) ==
  LET m == MethodOf(d, s.server, s.method)
      o == Outcome(d, m, s.answer)
      a == Answering(d, Range(s.servers), Path(s.server, s.method))
  IN Say(s.out.path = Path(s.server, s.method), "path")
     \cup (IF <<s.server, s.method>> \in a
           THEN Say(Seen(s.server, s.method, s.param, s.out.seen), "param")
                \cup Say(s.out.err = o.err /\ s.out.code = o.code, "error")
                \cup Say(SameSeq(s.out.result, o.result) \/ o.err # "", "result")
                \cup Say(Tags(s.out) = CallTags(m), "tags")
           ELSE Say(s.out.seen = <<>> /\ s.out.code = 404, "not registered"))

Raw(d, s) ==
  LET a == Answering(d, Range(s.servers), s.path)
  IN IF a = {} THEN Say(s.out.seen = <<>> /\ s.out.code = 404, "unknown path")
     ELSE LET x == CHOOSE x \in a : TRUE
          IN IF s.body = "bad" THEN Say(s.out.seen = <<>> /\ s.out.code # 0, "bad body")
             ELSE Say(Seen(x[1], x[2], s.param, s.out.seen), "param")

\* the server whose declaration of method m counts in server n: its own, or that of the
\* first of its bases that has it
RECURSIVE Owner(_, _, _)
Owner(d, n, m) ==
  IF \E k \in DOMAIN D(d, n).methods : D(d, n).methods[k].name = m THEN n
  ELSE LET bs == SelectSeq(D(d, n).bases, LAMBDA b : \E k \in DOMAIN AllMethods(d, b) : AllMethods(d, b)[k].name = m)
       IN Owner(d, bs[1], m)

DefaultCall(d, s) ==
  LET m == MethodOf(d, s.server, s.method)
      b == Bind(m)
      owner == Owner(d, s.server, m.name)
  IN IF b = <<>> THEN Say(s.out.seen = <<>> /\ s.out.err = "not find server " \o ServerName(owner), "default")
     ELSE IF DataVerdict(s.fields, s.values) # ""
     THEN LET f == CHOOSE x \in UNION {Range(f.formats) : f \in Range(s.fields)} : x.item = DataVerdict(s.fields, s.values)
          IN Say(s.out.seen = <<>> /\ s.out.err = f.msg /\ s.out.code = f.code, "refused request")
     ELSE LET t == s.bound.server
              bm == MethodOf(d, t, s.bound.method)
              p == Part(d, bm.par, s.param)
          IN IF t \notin Range(s.servers)
             THEN Say(s.out.seen = <<>> /\ s.out.err = "not find server " \o ServerName(t), "bound server missing")
             ELSE Say(Seen(t, bm.name, p, s.out.seen), "bound param")
                  \cup (LET o == Outcome(d, bm, s.answer)
                        IN IF o.err # "" THEN Say(s.out.err = o.err, "bound error")
                           ELSE Say(s.out.err = "", "bound error")
                                \cup Say(Len(s.out.result) = Len(o.result)
                                         /\ \A k \in DOMAIN o.result : Same(Part(d, bm.res, s.out.result[k]), Part(d, bm.res, o.result[k])), "bound result"))

Judge1(d, s) ==
  CASE s.op = "routes" -> Say(Range(s.routes) = Routes(d, s.server), "routes")
                          \cup Say(s.router = ServerName(s.server) /\ s.client = ServerName(s.server), "names")
    [] s.op = "call" -> Call(d, s)
    [] s.op = "raw" -> Raw(d, s)
    [] s.op = "default" -> DefaultCall(d, s)
    [] OTHER -> Say(s.found = s.here, "registry")

Judge(run) == [steps |-> Map(run.steps, LAMBDA s : Judge1(run.decls, s))]

Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1 /\ Emit(Judge(Runs[i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
