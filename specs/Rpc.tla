--------------------------------- MODULE Rpc ---------------------------------
(***************************************************************************)
(* Remote calls.  A server S answers the paths /s/s/m, one for each of its   *)
(* methods m, inherited ones included; a client of S sends a call of m to    *)
(* this path.  A default implementation passes a bound method on to the      *)
(* server it is bound to, and refuses all others.                           *)
(***************************************************************************)
EXTENDS Wire

ServerName(s) == Underline(s)
Key(s, m) == Underline(s) \o "/" \o Underline(m)
Path(s, m) == "/" \o ServerName(s) \o "/" \o Key(s, m)
Routes(decls, s) == {Key(s, AllMethods(decls, s)[i].name) : i \in DOMAIN AllMethods(decls, s)}

\* who answers a path, among the registered servers: at most one <<server, method>>
Answering(decls, servers, path) ==
  {<<s, m>> \in UNION {{<<s, AllMethods(decls, s)[i].name>> : i \in DOMAIN AllMethods(decls, s)} : s \in servers} : Path(s, m) = path}

MethodOf(decls, s, m) == AllMethods(decls, s)[CHOOSE i \in DOMAIN AllMethods(decls, s) : AllMethods(decls, s)[i].name = m]

\* the tags a call of the method carries
CallTags(m) == {<<TagKvs(m.tags, "tag")[i].k, TagKvs(m.tags, "tag")[i].v>> : i \in DOMAIN TagKvs(m.tags, "tag")}

Bind(m) == TagKvs(m.tags, "bind")

\* what the server is told: the fields of the parameter
Param(decls, m, v) == v
\* the part of v that belongs to base n
Part(decls, n, v) == [k |-> "data", m |-> Concat(Map(AllFields(decls, n), LAMBDA f : Entry(v.m, f.name)))]

\* The outcome of a call at an implementation that answers with a:
\*   a = [err |-> text, code |-> number, value |-> value]
Outcome(decls, m, a) ==
  IF a.code # 0 THEN [err |-> a.err, code |-> a.code, result |-> <<>>]
  ELSE IF a.err # "" THEN [err |-> a.err, code |-> 500, result |-> <<>>]
  ELSE [err |-> "", code |-> 0, result |-> IF m.res = "void" THEN <<>> ELSE <<a.value>>]
=============================================================================
