------------------------------ MODULE DartTypes ------------------------------
(***************************************************************************)
(* What the generated Dart declares, as its type checker sees it.           *)
(***************************************************************************)
EXTENDS Model

DartBase == [int8 |-> "int", int16 |-> "int", int32 |-> "int", int64 |-> "Int64",
             uint8 |-> "int", uint16 |-> "int", uint32 |-> "int", uint64 |-> "Int64",
             bool |-> "bool", float |-> "double", double |-> "double", string |-> "String",
             date |-> "DateTime", decimal |-> "Decimal"]
DartName(of) == IF of \in BaseTypes THEN DartBase[of] ELSE Hump(of)
Mark(opt) == IF opt THEN "?" ELSE ""
Nullable(t) == IF t.shape = "one" THEN t.opt ELSE t.copt
\* a type, and the same without the mark of what may be null
DartBare(t) ==
  CASE t.shape = "one" -> DartName(t.of)
    [] t.shape = "list" -> "List<" \o DartName(t.of) \o Mark(t.opt) \o ">"
    [] OTHER -> "Map<" \o DartName(t.key) \o ", " \o DartName(t.of) \o Mark(t.opt) \o ">"
DartType(t) == DartBare(t) \o Mark(Nullable(t))

Named(fs) == {DartType(fs[i].type) \o " " \o FirstLower(fs[i].name) : i \in DOMAIN fs}
\* the parameters of the constructor: what cannot be null must be given
Create(fs) == {(IF Nullable(fs[i].type) THEN "" ELSE "required ") \o DartType(fs[i].type) \o " " \o FirstLower(fs[i].name) : i \in DOMAIN fs}
\* the parameters of copyWith: what is not given stays
With(fs) == {DartBare(fs[i].type) \o "? " \o FirstLower(fs[i].name) : i \in DOMAIN fs}

Result(m) == IF m.res = "void" THEN "void" ELSE Hump(m.res)
Calls(decls, n) ==
  LET ms == AllMethods(decls, n)
  IN {FirstLower(ms[i].name) \o " Future<" \o Result(ms[i]) \o "> Function(" \o Hump(ms[i].par) \o ", [Context?])" : i \in DOMAIN ms}

\* what is found for the name of a declaration and a suffix: "all" is all there is, "some" is part of it
Want(decls, n, suffix) ==
  LET k == Kind(decls, n)
      h == Hump(n)
      bases == {Hump(b) : b \in Range(D(decls, n).bases)}
      fs == IF k = "data" THEN AllFields(decls, n) ELSE <<>>
      none == [what |-> "class", bases |-> {}, fields |-> {}, methods |-> {}, create |-> {}, with |-> {}, statics |-> {}]
  IN CASE k = "data" ->
            [what |-> "abstract class", bases |-> bases \cup {"Data"}, fields |-> Named(fs), create |-> Create(fs), with |-> With(fs),
             methods |-> {"copyWith " \o h, "copy " \o h \o " Function()", "toMap Map<String, dynamic> Function()", "toData ByteData Function()"},
             statics |-> {"fromMap " \o h \o " Function(Map<String, dynamic>)", "fromData " \o h \o " Function(ByteData)"}]
       [] k = "enum" ->
            [none EXCEPT !.fields = {"int value (read only)", "String name (read only)"},
                         !.methods = {"toText String Function(BuildContext)"},
                         !.statics = {"valueOf " \o h \o " Function(int)", "nameOf " \o h \o " Function(String)", "values List<" \o h \o ">"}
                                     \cup {AllUpper(D(decls, n).items[i].name) \o " " \o h : i \in DOMAIN D(decls, n).items}]
       [] suffix = "" -> [none EXCEPT !.what = "abstract class", !.bases = bases, !.methods = Calls(decls, n)]
       [] suffix = "Client" -> [none EXCEPT !.bases = {h, "ServerClient"}, !.create = {"Client"}, !.methods = Calls(decls, n)]
       [] OTHER -> [none EXCEPT !.bases = {"ServerRouter"}, !.create = {h}]
=============================================================================
