------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* The schema rules: which set of parsed files is a valid hbuf schema.     *)
(*                                                                         *)
(* A disk is a function from path to file; a file is a record              *)
(*   [imports |-> sequence of paths (already resolved),                    *)
(*    decls   |-> sequence of declarations]                                *)
(* and a declaration a record with the fields                              *)
(*   kind ("data"/"enum"/"server"), name, tags, bases, fields, items,      *)
(*   methods                                                               *)
(* of which those that do not belong to its kind are empty.                *)
(***************************************************************************)
EXTENDS Base

BaseTypes == {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32",
              "uint64", "bool", "float", "double", "string", "date", "decimal"}
Keywords  == {"data", "server", "enum", "import", "package"}
Reserved  == BaseTypes \cup Keywords

---------------------------------------------------------------------------
(* Scopes: a name is looked up in the file itself and in the files that    *)
(* this file imports directly.                                             *)

DirectImports(disk, p) == {q \in Range(disk[p].imports) : q \in DOMAIN disk}

\* A scope keeps the first declaration of a name.
Declared(disk, p, name) ==
  Find(disk[p].decls, LAMBDA d : d.name = name /\ name # "_")

DeclaredAs(disk, p, name, kinds) ==
  LET d == Declared(disk, p, name)
  IN  IF d # <<>> /\ d[1].kind \in kinds THEN d ELSE <<>>

Visible(disk, p, name, kinds) ==
  \E q \in {p} \cup DirectImports(disk, p) : DeclaredAs(disk, q, name, kinds) # <<>>

\* Where a visible name is declared.  An import that also declares the name
\* is a "Duplicate type" unless it is of another kind; the own file is first.
HomeOf(disk, p, name, kinds) ==
  IF DeclaredAs(disk, p, name, kinds) # <<>> THEN p
  ELSE disk[p].imports[CHOOSE i \in DOMAIN disk[p].imports :
          /\ disk[p].imports[i] \in DOMAIN disk
          /\ DeclaredAs(disk, disk[p].imports[i], name, kinds) # <<>>
          /\ \A j \in 1..(i - 1) : \/ disk[p].imports[j] \notin DOMAIN disk
                                   \/ DeclaredAs(disk, disk[p].imports[j], name, kinds) = <<>>]

---------------------------------------------------------------------------
(* Violations.  Each operator gives the set of error classes that the rule *)
(* reports; an empty set means the rule holds.                             *)

If(cond, e) == IF cond THEN {e} ELSE {}

TagErrors(tags) ==
  If(~Distinct(tags, LAMBDA t : t.name), "tag") \cup
  If(\E t \in Range(tags) : ~Distinct(t.kvs, LAMBDA kv : kv.k), "tag")

NameErrors(name) == If(name \in Reserved, "name")

DuplicateErrors(disk, p, i) ==
  LET d == disk[p].decls[i]
      later == \E j \in (i + 1)..Len(disk[p].decls) : disk[p].decls[j].name = d.name
      imported == \E q \in DirectImports(disk, p) : Declared(disk, q, d.name) # <<>>
  IN  If(later \/ imported, "dup-type")

BaseErrors(disk, p, d) ==
  UNION {NameErrors(b) : b \in Range(d.bases)} \cup
  If(Repeated(d.bases) # {}, "dup-item") \cup
  If(\E b \in Range(d.bases) : b \notin Reserved /\ ~Visible(disk, p, b, {d.kind}), "no-base")

TypeErrors(disk, p, of) ==
  If(of \notin BaseTypes /\ ~Visible(disk, p, of, {"data", "enum"}), "name")

KeyErrors(disk, p, t) ==
  IF t.shape # "map" THEN {}
  ELSE If(t.kopt, "key-null") \cup
       If(t.key \notin BaseTypes /\
          ~(/\ Visible(disk, p, t.key, {"data", "enum"})
            /\ LET q == HomeOf(disk, p, t.key, {"data", "enum"})
               IN  Declared(disk, q, t.key)[1].kind = "enum"), "key-type")

FieldErrors(disk, p, d) ==
  UNION {TagErrors(f.tags) \cup TypeErrors(disk, p, f.type.of) \cup
         KeyErrors(disk, p, f.type) \cup NameErrors(f.name) : f \in Range(d.fields)} \cup
  If(~Distinct(d.fields, LAMBDA f : f.name), "dup-item") \cup
  If(~Distinct(d.fields, LAMBDA f : f.id), "dup-item")

ItemErrors(d) ==
  UNION {TagErrors(e.tags) \cup NameErrors(e.name) : e \in Range(d.items)} \cup
  If(~Distinct(d.items, LAMBDA e : e.name), "dup-item") \cup
  If(~Distinct(d.items, LAMBDA e : e.id), "dup-item")

\* Parameter and result of a method are non-null data types; "void" is
\* allowed as result.
DataRefErrors(disk, p, of, opt) ==
  If(opt, "key-null") \cup
  If(~\E q \in {p} \cup DirectImports(disk, p) : DeclaredAs(disk, q, of, {"data"}) # <<>>, "not-data")

MethodErrors(disk, p, d) ==
  UNION {TagErrors(m.tags) \cup NameErrors(m.name) \cup NameErrors(m.pname) \cup
         (IF m.res = "void" THEN {} ELSE DataRefErrors(disk, p, m.res, m.resopt)) \cup
         DataRefErrors(disk, p, m.par, m.paropt) : m \in Range(d.methods)} \cup
  If(~Distinct(d.methods, LAMBDA m : m.name), "dup-item")

DeclErrors(disk, p, i) ==
  LET d == disk[p].decls[i]
  IN  TagErrors(d.tags) \cup NameErrors(d.name) \cup DuplicateErrors(disk, p, i) \cup
      BaseErrors(disk, p, d) \cup FieldErrors(disk, p, d) \cup ItemErrors(d) \cup
      MethodErrors(disk, p, d)

FileErrors(disk, p) == UNION {DeclErrors(disk, p, i) : i \in 1..Len(disk[p].decls)}

---------------------------------------------------------------------------
(* Inheritance must be acyclic.  Only meaningful when every base exists.   *)

Node(p, name) == <<p, name>>

BasesOf(disk, n) ==
  LET d == Declared(disk, n[1], n[2])
  IN  IF d = <<>> THEN {}
      ELSE {Node(HomeOf(disk, n[1], b, {d[1].kind}), b) :
              b \in {b \in Range(d[1].bases) : Visible(disk, n[1], b, {d[1].kind})}}

Cyclic(disk) ==
  \E p \in DOMAIN disk : \E d \in Range(disk[p].decls) :
     LET n == Node(p, d.name)
         N(x) == BasesOf(disk, x)
     IN  d.bases # <<>> /\ n \in Closure(BasesOf(disk, n), N)

Errors(disk) ==
  LET es == UNION {FileErrors(disk, p) : p \in DOMAIN disk}
  IN  IF es # {} THEN es ELSE If(Cyclic(disk), "cycle")

Accepts(disk) == Errors(disk) = {}
=============================================================================
