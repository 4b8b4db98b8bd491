-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* The meaning of a set of declarations that follows the rules (Rules):    *)
(* lookup, inheritance, members.  decls is a sequence of                    *)
(*   [kind, name, pkg, bases, fields, items, methods]                       *)
(* with distinct names.                                                     *)
(***************************************************************************)
EXTENDS Names

IsDecl(decls, n) == \E i \in DOMAIN decls : decls[i].name = n
D(decls, n) == decls[CHOOSE i \in DOMAIN decls : decls[i].name = n]
Kind(decls, n) == IF IsDecl(decls, n) THEN D(decls, n).kind ELSE "base"
OfKind(decls, k) == {decls[i].name : i \in {j \in DOMAIN decls : decls[j].kind = k}}

\* all fields of a data, bases first; the first of a name is kept
RECURSIVE AllFieldsRaw(_, _)
AllFieldsRaw(decls, n) ==
  LET d == D(decls, n)
  IN Concat(Map(d.bases, LAMBDA b : AllFieldsRaw(decls, b))) \o d.fields
FirstOfName(s) == LET keep == {i \in DOMAIN s : \A j \in 1..(i - 1) : s[j].name # s[i].name}
                      RECURSIVE G(_)
                      G(i) == IF i > Len(s) THEN <<>> ELSE (IF i \in keep THEN <<s[i]>> ELSE <<>>) \o G(i + 1)
                  IN G(1)
AllFields(decls, n) == FirstOfName(AllFieldsRaw(decls, n))

\* all methods of a server: own ones first, an own method wins
RECURSIVE AllMethodsRaw(_, _)
AllMethodsRaw(decls, n) ==
  LET d == D(decls, n)
  IN d.methods \o Concat(Map(d.bases, LAMBDA b : AllMethodsRaw(decls, b)))
AllMethods(decls, n) == FirstOfName(AllMethodsRaw(decls, n))

Ancestors(decls, n) == Closure(Range(D(decls, n).bases), LAMBDA b : Range(D(decls, b).bases))

\* the keys and values of the tag n
TagKvs(tags, n) == Concat(Map(SelectSeq(tags, LAMBDA t : t.name = n), LAMBDA t : t.kvs))

IntTypes == {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}
BaseTypes == IntTypes \cup {"bool", "float", "double", "string", "date", "decimal"}

\* a value of the language: the kind tag of the values of a plain type
ValueKind(decls, of) ==
  CASE of \in IntTypes -> "int"
    [] of = "bool" -> "bool"
    [] of \in {"float", "double"} -> "num"
    [] of = "string" -> "str"
    [] of = "date" -> "date"
    [] of = "decimal" -> "dec"
    [] OTHER -> Kind(decls, of)
=============================================================================
