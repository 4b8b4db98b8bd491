------------------------------ MODULE JavaTypes ------------------------------
(***************************************************************************)
(* What the generated Java declares, with the names reflection gives.       *)
(***************************************************************************)
EXTENDS Model

JavaBase == [int8 |-> "Byte", int16 |-> "Short", int32 |-> "Integer", int64 |-> "Long",
             uint8 |-> "Character", uint16 |-> "Integer", uint32 |-> "Long", uint64 |-> "BigInteger",
             bool |-> "Boolean", float |-> "Float", double |-> "Double", string |-> "String",
             date |-> "Date", decimal |-> "BigDecimal"]
JavaName(of) == IF of \in BaseTypes THEN JavaBase[of] ELSE Hump(of)

JavaType(t) ==
  CASE t.shape = "one" -> JavaName(t.of)
    [] t.shape = "list" -> "List<" \o JavaName(t.of) \o ">"
    [] OTHER -> "Map<" \o JavaName(t.key) \o ", " \o JavaName(t.of) \o ">"

Accessors(decls, n) ==
  LET fs == AllFields(decls, n)
  IN UNION {{"get" \o Hump(fs[i].name) \o "() " \o JavaType(fs[i].type),
             "set" \o Hump(fs[i].name) \o "(" \o JavaType(fs[i].type) \o ") void"} : i \in DOMAIN fs}
     \cup {"copy() " \o Hump(n)}

Calls(decls, n) ==
  LET ms == AllMethods(decls, n)
  IN {FirstLower(ms[i].name) \o "(" \o Hump(ms[i].par) \o ", Context) CompletableFuture<"
        \o (IF ms[i].res = "void" THEN "Void" ELSE Hump(ms[i].res)) \o ">" : i \in DOMAIN ms}

\* what is found for the name of a declaration and a suffix
Want(decls, n, suffix) ==
  LET k == Kind(decls, n)
      bases == {Hump(b) : b \in Range(D(decls, n).bases)}
  IN CASE k = "data" /\ suffix = "" -> [what |-> "interface", bases |-> bases \cup {"Data"}, methods |-> Accessors(decls, n)]
       [] k = "data" -> [what |-> "class", bases |-> bases \cup {Hump(n)},
                         methods |-> Accessors(decls, n) \cup {"toData() byte[]", "formData(byte[]) T"}]
       [] k = "enum" -> [what |-> "class", bases |-> {}, methods |-> {"equals(Object) boolean", "hashCode() int", "toString() String"}]
       [] suffix = "" -> [what |-> "interface", bases |-> bases, methods |-> Calls(decls, n)]
       [] OTHER -> [what |-> "class", bases |-> {Hump(n)}, methods |-> Calls(decls, n) \cup {"getName() String", "getId() long"}]
=============================================================================
