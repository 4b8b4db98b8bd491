-------------------------------- MODULE Refs ---------------------------------
(***************************************************************************)
(* What the values of tags refer to.                                        *)
(*   [verify: format="Enum.item", ...]  of a data or field: an item of an    *)
(*        enum that is visible where the data is declared                   *)
(*   [bind: value="Server.method"]      of a method: an own method of a      *)
(*        server that is visible where the method is declared               *)
(*   [db: where="... ${name} ?{name}"]  of a field of a data that is listed,  *)
(*        counted or mapped: a field of that data, own or inherited, with a   *)
(*        db tag                                                             *)
(*   [db: table="Data"]                 of a data: a data that is visible      *)
(*        where it is declared and has a db tag itself                       *)
(*   [db: map="name:scope"]             of a data: such a field of the data     *)
(*        (scope self) or of its table (parent)                              *)
(* A target reads the tags it uses: Go all, TypeScript and Dart the formats.  *)
(* Wrong gives the culprits, as Places does, each with the places where it    *)
(* may be reported.                                                         *)
(***************************************************************************)
EXTENDS Places

\* the parts between the characters c
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, c, i, from) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF Char(s, i) = c THEN <<SubSeq(s, from, i - 1)>> \o SplitAt(s, c, i + 1, i + 1)
  ELSE SplitAt(s, c, i + 1, from)
Split(s) == SplitAt(s, ".", 1, 1)

AllKinds == {"data", "enum", "server"}

\* the declaration that a name means in a file: whatever is declared under it, not only what fits
Meant(disk, p, name) ==
  IF Visible(disk, p, name, AllKinds) THEN Declared(disk, HomeOf(disk, p, name, AllKinds), name) ELSE <<>>

Members(d) == IF d.kind = "enum" THEN {x.name : x \in Range(d.items)} ELSE {x.name : x \in Range(d.methods)}

Resolves(disk, p, text, kind) ==
  LET s == Split(text)
  IN  /\ Len(s) = 2
      /\ LET d == Meant(disk, p, s[1]) IN d # <<>> /\ d[1].kind = kind /\ s[2] \in Members(d[1])

---------------------------------------------------------------------------
Tagged(tags, name) == {n \in DOMAIN tags : tags[n].name = name}
Keyed(tag, key) == {k \in DOMAIN tag.kvs : tag.kvs[k].k = key}

FormatRefs(disk, p, tags, at) ==
  UNION {UNION {{[class |-> "ref", at |-> {Sub(Sub(Sub(at, "t", n), "k", k), "v", v)}] :
                   v \in {v \in DOMAIN tags[n].kvs[k].v : ~Resolves(disk, p, tags[n].kvs[k].v[v], "enum")}} :
                k \in Keyed(tags[n], "format")} : n \in Tagged(tags, "verify")}

\* only the first value of bind counts
BindRefs(disk, p, tags, at) ==
  UNION {{[class |-> "ref", at |-> {Sub(Sub(at, "t", n), "k", k), Sub(Sub(Sub(at, "t", n), "k", k), "v", 1)}] :
            k \in {k \in Keyed(tags[n], "value") : ~Resolves(disk, p, tags[n].kvs[k].v[1], "server")}} : n \in Tagged(tags, "bind")}

---------------------------------------------------------------------------
(* Conditions.                                                             *)
WordChars == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
              "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
              "0","1","2","3","4","5","6","7","8","9","_"}
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ Char(s, i) \in WordChars THEN WordEnd(s, i + 1) ELSE i

\* the names n of ${n} and ?{n} in a text
RECURSIVE NamesFrom(_, _)
NamesFrom(s, i) ==
  IF i + 1 > Len(s) THEN {}
  ELSE IF Char(s, i) \in {"$", "?"} /\ Char(s, i + 1) = "{"
       THEN LET e == WordEnd(s, i + 2)
            IN  (IF e > i + 2 /\ e <= Len(s) /\ Char(s, e) = "}" THEN {SubSeq(s, i + 2, e - 1)} ELSE {}) \cup NamesFrom(s, i + 1)
  ELSE NamesFrom(s, i + 1)
NamesIn(s) == NamesFrom(s, 1)

\* the fields of a data with where they stand: own and of bases, the first of a name counts
RECURSIVE PlacedFields(_, _, _)
PlacedFields(disk, p, i) ==
  LET d == disk[p].decls[i]
      at == Sub(p, "d", i)
      of(b) == LET q == HomeOf(disk, p, b, {"data"})
                   j == CHOOSE j \in DOMAIN disk[q].decls : disk[q].decls[j].name = b /\ \A k \in 1..(j - 1) : disk[q].decls[k].name # b
               IN  PlacedFields(disk, q, j)
  IN  Concat([b \in DOMAIN d.bases |-> of(d.bases[b])]) \o
      [n \in DOMAIN d.fields |-> [f |-> d.fields[n], at |-> Sub(at, "f", n) \o "/name"]]
FirstOnes(s) == SelectSeq([i \in DOMAIN s |-> [x |-> s[i], i |-> i]], LAMBDA e : \A j \in 1..(e.i - 1) : s[j].f.name # e.x.f.name)

Db(tags) == LET n == Tagged(tags, "db") IN IF n = {} THEN <<>> ELSE <<tags[CHOOSE k \in n : TRUE]>>
\* the first value of a key, "" if there is none
Val(tag, key) == LET k == Keyed(tag, key) IN IF k = {} THEN "" ELSE tag.kvs[CHOOSE n \in k : TRUE].v[1]
Conditions(f) == LET t == Db(f.tags)[1] IN UNION {Range(t.kvs[k].v) : k \in Keyed(t, "where")}
Scope == {"self", "Self", "parent", "PARENT"}

Columns(disk, p, i) == {e.x : e \in {e \in Range(FirstOnes(PlacedFields(disk, p, i))) : Db(e.x.f.tags) # <<>>}}
Names(disk, p, i) == {x.f.name : x \in Columns(disk, p, i)}

\* the data that is the table of another: where it is declared
IsTable(disk, p, name) == LET d == Meant(disk, p, name) IN d # <<>> /\ d[1].kind = "data" /\ Db(d[1].tags) # <<>>
TableNames(disk, p, name) ==
  LET q == HomeOf(disk, p, name, AllKinds)
  IN  Names(disk, q, CHOOSE j \in DOMAIN disk[q].decls : disk[q].decls[j].name = name /\ \A k \in 1..(j - 1) : disk[q].decls[k].name # name)

DbRefs(disk, p, i) ==
  LET d == disk[p].decls[i]
      here == {[class |-> "name", at |-> {Sub(p, "d", i) \o "/name"}]}
      db == Db(d.tags)[1]
      table == Val(db, "table")
      key == SplitAt(Val(db, "map"), ":", 1, 1)
      mapped == Len(key) > 1 /\ key[1] # "" /\ key[2] \in Scope
      keys == IF table # "" /\ key[2] \notin {"self", "Self"} THEN TableNames(disk, p, table) ELSE Names(disk, p, i)
      asks == Val(db, "list") \in Scope \/ Val(db, "count") \in {"true", "True"} \/ (mapped /\ key[1] \in keys)
  IN  IF Db(d.tags) = <<>> THEN {}
      ELSE IF table # "" /\ ~IsTable(disk, p, table) THEN here
      ELSE (IF mapped /\ key[1] \notin keys THEN here ELSE {}) \cup
           (IF asks THEN {[class |-> "name", at |-> {x.at}] : x \in {x \in Columns(disk, p, i) : \E t \in Conditions(x.f) : ~(NamesIn(t) \subseteq Names(disk, p, i))}}
            ELSE {})

---------------------------------------------------------------------------
Reads(target, what) ==
  CASE target = "go" -> TRUE
    [] target \in {"ts", "dart"} -> what = "verify"
    [] OTHER -> FALSE

\* a field hidden by a field of a base: nothing is generated from its tags
Counts(disk, p, i, n) == \E e \in Range(FirstOnes(PlacedFields(disk, p, i))) : e.x.at = Sub(Sub(p, "d", i), "f", n) \o "/name"
Fields(disk, p, i, hidden) == {n \in DOMAIN disk[p].decls[i].fields : hidden \/ Counts(disk, p, i, n)}

DeclRefs(disk, p, i, target, hidden) ==
  LET d == disk[p].decls[i]
      at == Sub(p, "d", i)
  IN  (IF d.kind = "data" /\ Reads(target, "verify")
       THEN FormatRefs(disk, p, d.tags, at) \cup UNION {FormatRefs(disk, p, d.fields[n].tags, Sub(at, "f", n)) : n \in Fields(disk, p, i, hidden)}
       ELSE {}) \cup
      (IF d.kind = "data" /\ Reads(target, "db") THEN DbRefs(disk, p, i) ELSE {}) \cup
      (IF d.kind = "server" /\ Reads(target, "bind") THEN UNION {BindRefs(disk, p, d.methods[n].tags, Sub(at, "m", n)) : n \in DOMAIN d.methods}
       ELSE {})

WrongIf(disk, target, hidden) == UNION {UNION {DeclRefs(disk, p, i, target, hidden) : i \in DOMAIN disk[p].decls} : p \in DOMAIN disk}
Wrong(disk, target) == WrongIf(disk, target, FALSE)    \* has to be refused
Doubtful(disk, target) == WrongIf(disk, target, TRUE)  \* may be refused
=============================================================================
