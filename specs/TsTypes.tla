------------------------------- MODULE TsTypes -------------------------------
(***************************************************************************)
(* What the generated TypeScript declares, as its type checker writes it.   *)
(***************************************************************************)
EXTENDS Model

Small == {"int8", "int16", "int32", "uint8", "uint16", "uint32"}
TsBase(of) ==
  CASE of \in Small \cup {"float", "double"} -> "number"
    [] of \in {"int64", "uint64"} -> "Long"
    [] of = "bool" -> "boolean"
    [] of = "string" -> "string"
    [] of = "date" -> "Date"
    [] OTHER -> "Decimal"
TsName(of) == IF of \in BaseTypes THEN TsBase(of) ELSE Hump(of)
OrNull(b) == IF b THEN " | null" ELSE ""

\* keys of a record are texts or numbers
TsKey(key) == IF key \in Small \cup {"float", "double", "date"} \/ key \notin BaseTypes THEN "number" ELSE "string"

TsType(t) ==
  CASE t.shape = "one" -> TsName(t.of) \o OrNull(t.opt)
    [] t.shape = "list" -> (IF t.opt THEN "(" \o TsName(t.of) \o " | null)[]" ELSE TsName(t.of) \o "[]") \o OrNull(t.copt)
    [] OTHER -> "Record<" \o TsKey(t.key) \o ", " \o TsName(t.of) \o OrNull(t.opt) \o ">" \o OrNull(t.copt)

Member(n, t) == [name |-> n, type |-> t]
Call(n, ps, r) == [name |-> n, params |-> ps, result |-> r]

\* a data: all fields, inherited ones too
DataFields(decls, n) == LET fs == AllFields(decls, n) IN {Member(FirstLower(fs[i].name), TsType(fs[i].type)) : i \in DOMAIN fs}
DataMethods(n) == {Call("toJson", <<>>, "Record<string, any>"), Call("toData", <<>>, "ArrayBuffer"), Call("clone", <<>>, Hump(n))}
DataStatics(n) == {Member("fromJson", "Record<string, any> => " \o Hump(n)), Member("fromData", "ArrayBuffer => " \o Hump(n))}

EnumFields == {Member("value", "number"), Member("name", "string")}
EnumMethods == {Call("toString", <<>>, "string")}
EnumStatics(decls, n) ==
  LET d == D(decls, n)
  IN {Member("valueOf", "number => " \o Hump(n)), Member("nameOf", "string => " \o Hump(n)), Member("values", Hump(n) \o "[]")}
     \cup {Member(AllUpper(d.items[i].name), Hump(n)) : i \in DOMAIN d.items}

ServerMethods(decls, n) ==
  LET ms == AllMethods(decls, n)
  IN {Call(FirstLower(ms[i].name), <<TsName(ms[i].par), "Context | undefined">>,
           "Promise<" \o (IF ms[i].res = "void" THEN "void" ELSE TsName(ms[i].res)) \o ">") : i \in DOMAIN ms}

What(decls, n) ==
  LET k == Kind(decls, n)
  IN CASE k = "data" -> {[name |-> Hump(n), what |-> "class", fields |-> DataFields(decls, n), methods |-> DataMethods(n), statics |-> DataStatics(n)]}
       [] k = "enum" -> {[name |-> Hump(n), what |-> "class", fields |-> EnumFields, methods |-> EnumMethods, statics |-> EnumStatics(decls, n)]}
       [] OTHER ->
          {[name |-> Hump(n), what |-> "interface", fields |-> {}, methods |-> ServerMethods(decls, n), statics |-> {}],
           [name |-> Hump(n) \o "Client", what |-> "class", fields |-> {Member("name", "string"), Member("id", "number")},
            methods |-> ServerMethods(decls, n), statics |-> {}],
           [name |-> Hump(n) \o "Router", what |-> "class",
            fields |-> {Member("server", Hump(n)), Member("invoke", "Record<string, ServerInvoke>")},
            methods |-> {Call("getInvoke", <<>>, "Record<string, ServerInvoke>"), Call("getName", <<>>, "string"), Call("getId", <<>>, "number")},
            statics |-> {}]}
=============================================================================
