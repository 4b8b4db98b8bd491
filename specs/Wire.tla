-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The JSON form of data, shared by all languages.                          *)
(*                                                                          *)
(* Values:  [k |-> "int"/"num"/"dec"/"str"/"bool"/"date"/"enum", v |-> text]*)
(*          [k |-> "null"], [k |-> "list", l |-> sequence],                 *)
(*          [k |-> "map", m |-> sequence of [n |-> key text, v |-> value]], *)
(*          [k |-> "data", m |-> sequence of [n |-> field, v |-> value]]    *)
(* JSON:    [k |-> "null"], [k |-> "bool"/"num"/"str", v |-> text],         *)
(*          [k |-> "arr", l |-> sequence],                                  *)
(*          [k |-> "obj", m |-> sequence of [n |-> key, v |-> JSON]]        *)
(* Numbers are written in one canonical decimal form.                       *)
(***************************************************************************)
EXTENDS Model

Null == [k |-> "null"]
Bad == [k |-> "bad"]

\* the kinds of JSON in which a plain type is written
JsonKind(of) ==
  CASE of \in {"int64", "uint64", "decimal", "string"} -> "str"
    [] of = "bool" -> "bool"
    [] OTHER -> "num"

\* the value of a field that is not written
Zero(decls, of) ==
  CASE of \in IntTypes -> [k |-> "int", v |-> "0"]
    [] of = "bool" -> [k |-> "bool", v |-> "false"]
    [] of \in {"float", "double"} -> [k |-> "num", v |-> "0"]
    [] of = "decimal" -> [k |-> "dec", v |-> "0"]
    [] of = "string" -> [k |-> "str", v |-> ""]
    [] OTHER -> LET is == D(decls, of).items
                IN IF is = <<>> \/ \E n \in DOMAIN is : is[n].id = "0" THEN [k |-> "enum", v |-> "0"]
                   ELSE [k |-> "enum", v |-> "0", or |-> is[1].id]     \* languages without an item 0 start with the first

Entry(m, n) == Find(m, LAMBDA e : e.n = n)

RECURSIVE DefaultData(_, _), Decode(_, _, _), DecodeData(_, _, _)
\* a date that is not written has no value that languages agree upon
Default(decls, t) ==
  IF t.shape # "one" \/ t.opt THEN Null
  ELSE IF t.of = "date" THEN [k |-> "date", v |-> "unset"]
  ELSE IF Kind(decls, t.of) = "data" THEN DefaultData(decls, t.of)
  ELSE Zero(decls, t.of)
DefaultData(decls, n) ==
  [k |-> "data", m |-> Map(AllFields(decls, n), LAMBDA f : [n |-> f.name, v |-> Default(decls, f.type)])]

Elem(t) == [shape |-> "one", of |-> t.of, opt |-> t.opt]
Decode(decls, t, j) ==
  IF j.k = "null" THEN Default(decls, t)
  ELSE IF t.shape = "list" THEN
    IF j.k # "arr" THEN Bad
    ELSE [k |-> "list", l |-> Map(j.l, LAMBDA x : Decode(decls, Elem(t), x))]
  ELSE IF t.shape = "map" THEN
    IF j.k # "obj" THEN Bad
    ELSE [k |-> "map", m |-> Map(j.m, LAMBDA e : [n |-> e.n, v |-> Decode(decls, Elem(t), e.v)])]
  ELSE IF Kind(decls, t.of) = "data" THEN DecodeData(decls, t.of, j)
  ELSE IF j.k # JsonKind(t.of) THEN Bad
  ELSE [k |-> ValueKind(decls, t.of), v |-> j.v]
DecodeData(decls, n, j) ==
  IF j.k # "obj" THEN Bad
  ELSE [k |-> "data",
        m |-> Map(AllFields(decls, n),
                  LAMBDA f : LET e == Entry(j.m, Underline(f.name))
                             IN [n |-> f.name, v |-> IF e = <<>> THEN Default(decls, f.type) ELSE Decode(decls, f.type, e[1].v)])]

\* what it takes to be the same value: an empty collection is as good as none
RECURSIVE Same(_, _)
Same(a, b) ==
  LET empty(x) == x.k = "null" \/ (x.k = "list" /\ x.l = <<>>) \/ (x.k = "map" /\ x.m = <<>>)
  IN IF empty(a) \/ empty(b) THEN empty(a) /\ empty(b)
     ELSE IF a.k # b.k \/ a.k = "bad" THEN FALSE
     ELSE IF a.k = "list" THEN Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : Same(a.l[i], b.l[i])
     ELSE IF a.k \in {"map", "data"}
          THEN /\ Len(a.m) = Len(b.m)
               /\ \A i \in DOMAIN a.m : LET e == Entry(b.m, a.m[i].n) IN e # <<>> /\ Same(a.m[i].v, e[1].v)
     ELSE IF a.k = "enum" THEN
       LET of(x) == {x.v} \cup (IF "or" \in DOMAIN x THEN {x.or} ELSE {}) IN of(a) \cap of(b) # {}
     ELSE IF a.k = "date" /\ (a.v = "unset" \/ b.v = "unset") THEN TRUE
     ELSE a.v = b.v

\* the object of a data has the keys of its fields only, each at most once, at every depth
RECURSIVE Keys(_, _, _)
Keys(decls, t, j) ==
  IF t.shape = "list" /\ j.k = "arr" THEN UNION {Keys(decls, Elem(t), j.l[i]) : i \in DOMAIN j.l}
  ELSE IF t.shape = "map" /\ j.k = "obj" THEN UNION {Keys(decls, Elem(t), j.m[i].v) : i \in DOMAIN j.m}
  ELSE IF t.shape = "one" /\ Kind(decls, t.of) = "data" /\ j.k = "obj" THEN
    LET fs == AllFields(decls, t.of)
        names == {Underline(fs[i].name) : i \in DOMAIN fs}
    IN {j.m[i].n : i \in {i \in DOMAIN j.m : j.m[i].n \notin names}}
       \cup Repeated(Map(j.m, LAMBDA e : e.n))
       \cup UNION {LET e == Entry(j.m, Underline(fs[i].name)) IN IF e = <<>> THEN {} ELSE Keys(decls, fs[i].type, e[1].v) : i \in DOMAIN fs}
  ELSE {}

\* null fields are left out, at every depth: the names of the ones that are written
RECURSIVE Nulls(_, _, _)
Nulls(decls, t, j) ==
  IF t.shape = "list" /\ j.k = "arr" THEN UNION {Nulls(decls, Elem(t), j.l[i]) : i \in DOMAIN j.l}
  ELSE IF t.shape = "map" /\ j.k = "obj" THEN UNION {Nulls(decls, Elem(t), j.m[i].v) : i \in DOMAIN j.m}
  ELSE IF t.shape = "one" /\ Kind(decls, t.of) = "data" /\ j.k = "obj" THEN
    LET fs == AllFields(decls, t.of)
        of(i) == Entry(j.m, Underline(fs[i].name))
    IN UNION {IF of(i) = <<>> THEN {}
              ELSE IF of(i)[1].v.k = "null" THEN {fs[i].name}
              ELSE Nulls(decls, fs[i].type, of(i)[1].v) : i \in DOMAIN fs}
  ELSE {}

\* an encoder: what may be left out is left out
RECURSIVE Encode(_, _, _)
Encode(decls, t, v) ==
  CASE v.k = "null" -> Null
    [] v.k = "list" -> [k |-> "arr", l |-> Map(v.l, LAMBDA x : Encode(decls, Elem(t), x))]
    [] v.k = "map" -> [k |-> "obj", m |-> Map(v.m, LAMBDA e : [n |-> e.n, v |-> Encode(decls, Elem(t), e.v)])]
    [] v.k = "data" ->
         [k |-> "obj",
          m |-> Concat(Map(v.m, LAMBDA e :
                  LET fs == AllFields(decls, t.of)
                      f == fs[CHOOSE i \in DOMAIN fs : fs[i].name = e.n]
                  IN IF e.v = Default(decls, f.type) THEN <<>>
                     ELSE <<[n |-> Underline(e.n), v |-> Encode(decls, f.type, e.v)]>>))]
    [] OTHER -> [k |-> JsonKind(t.of), v |-> v.v]

One(n) == [shape |-> "one", of |-> n, opt |-> FALSE]
=============================================================================
