------------------------------- MODULE GoTypes -------------------------------
(***************************************************************************)
(* What the generated Go code declares.                                     *)
(***************************************************************************)
EXTENDS Model

GoBase == [int8 |-> "int8", int16 |-> "int16", int32 |-> "int32", int64 |-> "hbuf.Int64",
           uint8 |-> "uint8", uint16 |-> "uint16", uint32 |-> "uint32", uint64 |-> "hbuf.Uint64",
           bool |-> "bool", float |-> "float32", double |-> "float64", string |-> "string",
           date |-> "hbuf.Time", decimal |-> "decimal.Decimal"]

GoName(decls, of) == IF of \in BaseTypes THEN GoBase[of] ELSE D(decls, of).pkg \o "." \o Hump(of)
Star(b) == IF b THEN "*" ELSE ""

GoType(decls, t) ==
  LET elem == Star(t.opt) \o GoName(decls, t.of)
  IN CASE t.shape = "one" -> elem
       [] t.shape = "list" -> "[]" \o elem
       [] OTHER -> "map[" \o GoName(decls, t.key) \o "]" \o elem

\* the struct of a data: the bases are embedded, every own field carries its JSON name
Struct(decls, n) ==
  LET d == D(decls, n)
  IN {[name |-> Hump(b), type |-> GoName(decls, b), json |-> "", embed |-> TRUE] : b \in Range(d.bases)}
     \cup {[name |-> Hump(d.fields[i].name), type |-> GoType(decls, d.fields[i].type),
            json |-> Underline(d.fields[i].name), embed |-> FALSE] : i \in DOMAIN d.fields}

\* the values of an enum: name as ToName gives it, number as declared
GoEnum(decls, n) == {[name |-> Hump(D(decls, n).items[i].name), value |-> D(decls, n).items[i].id] :
                       i \in DOMAIN D(decls, n).items}

\* the methods of the interface, as reflection writes their signatures
GoMethod(decls, m) ==
  [name |-> Hump(m.name),
   type |-> "func(context.Context, *" \o GoName(decls, m.par) \o ") "
            \o (IF m.res = "void" THEN "error" ELSE "(*" \o GoName(decls, m.res) \o ", error)")]
GoInterface(decls, n) == {[name |-> "Init", type |-> "func(context.Context)"]}
                         \cup {GoMethod(decls, AllMethods(decls, n)[i]) : i \in DOMAIN AllMethods(decls, n)}
=============================================================================
