------------------------------- MODULE Places --------------------------------
(***************************************************************************)
(* Where a schema breaks a rule: the words that an error may point at.       *)
(* A culprit is [class, at, name]: the class of Rules, the place of a word     *)
(* and the name that the message quotes ("" if it quotes none).              *)
(* Places: file/import<n>, file/d<n>/name, .../b<n> (a base), .../f<n>, i<n>,   *)
(* m<n> (fields, items, methods) with /of, key, name, id, res, par, pname,    *)
(* and for tags, of declarations and members, .../t<n> and .../t<n>/k<n>.     *)
(***************************************************************************)
EXTENDS Rules

C(class, at, name) == [class |-> class, at |-> at, name |-> name]
Sub(at, what, n) == at \o "/" \o what \o ToString(n)
When(cond, c) == IF cond THEN {c} ELSE {}
\* the members of a sequence whose Key another one has, too
Twins(s, Key(_)) == {a \in DOMAIN s : \E b \in DOMAIN s : a # b /\ Key(s[a]) = Key(s[b])}

TagPlaces(tags, at) ==
  {C("tag", Sub(at, "t", n), "") : n \in Twins(tags, LAMBDA t : t.name)} \cup
  UNION {{C("tag", Sub(Sub(at, "t", n), "k", k), "") : k \in Twins(tags[n].kvs, LAMBDA kv : kv.k)} : n \in DOMAIN tags}

NamePlaces(name, at) == When(name \in Reserved, C("name", at, name))

BasePlaces(disk, p, d, at) ==
  UNION {LET b == d.bases[n] IN
           NamePlaces(b, Sub(at, "b", n)) \cup
           When(b \notin Reserved /\ ~Visible(disk, p, b, {d.kind}), C("no-base", Sub(at, "b", n), b)) : n \in DOMAIN d.bases} \cup
  {C("dup-item", Sub(at, "b", n), d.bases[n]) : n \in Twins(d.bases, LAMBDA b : b)}

KeyPlaces(disk, p, t, at) == {C(e, at \o "/key", "") : e \in KeyErrors(disk, p, t)}

FieldPlaces(disk, p, d, at) ==
  UNION {LET f == d.fields[n]
             a == Sub(at, "f", n)
         IN  TagPlaces(f.tags, a) \cup KeyPlaces(disk, p, f.type, a) \cup NamePlaces(f.name, a \o "/name") \cup
             When(TypeErrors(disk, p, f.type.of) # {}, C("name", a \o "/of", f.type.of)) : n \in DOMAIN d.fields} \cup
  {C("dup-item", Sub(at, "f", n) \o "/name", d.fields[n].name) : n \in Twins(d.fields, LAMBDA f : f.name)} \cup
  {C("dup-item", Sub(at, "f", n) \o "/id", d.fields[n].id) : n \in Twins(d.fields, LAMBDA f : f.id)}

ItemPlaces(d, at) ==
  UNION {TagPlaces(d.items[n].tags, Sub(at, "i", n)) \cup NamePlaces(d.items[n].name, Sub(at, "i", n) \o "/name") : n \in DOMAIN d.items} \cup
  {C("dup-item", Sub(at, "i", n) \o "/name", d.items[n].name) : n \in Twins(d.items, LAMBDA e : e.name)} \cup
  {C("dup-item", Sub(at, "i", n) \o "/id", d.items[n].id) : n \in Twins(d.items, LAMBDA e : e.id)}

RefPlaces(disk, p, of, opt, at) ==
  {C(e, at, IF e = "not-data" THEN of ELSE "") : e \in DataRefErrors(disk, p, of, opt)}

MethodPlaces(disk, p, d, at) ==
  UNION {LET m == d.methods[n]
             a == Sub(at, "m", n)
         IN  TagPlaces(m.tags, a) \cup NamePlaces(m.name, a \o "/name") \cup NamePlaces(m.pname, a \o "/pname") \cup
             (IF m.res = "void" THEN {} ELSE RefPlaces(disk, p, m.res, m.resopt, a \o "/res")) \cup
             RefPlaces(disk, p, m.par, m.paropt, a \o "/par") : n \in DOMAIN d.methods} \cup
  {C("dup-item", Sub(at, "m", n) \o "/name", d.methods[n].name) : n \in Twins(d.methods, LAMBDA m : m.name)}

\* either of two declarations of one name is at fault, but for one that only an import declares again
Again(disk, p, i) ==
  LET n == disk[p].decls[i].name
  IN  DuplicateErrors(disk, p, i) # {} \/ \E j \in 1..(i - 1) : disk[p].decls[j].name = n

DeclPlaces(disk, p, i) ==
  LET d == disk[p].decls[i]
      at == Sub(p, "d", i)
  IN  TagPlaces(d.tags, at) \cup NamePlaces(d.name, at \o "/name") \cup
      When(Again(disk, p, i), C("dup-type", at \o "/name", d.name)) \cup
      BasePlaces(disk, p, d, at) \cup FieldPlaces(disk, p, d, at) \cup ItemPlaces(d, at) \cup MethodPlaces(disk, p, d, at)

RulePlaces(disk) == UNION {UNION {DeclPlaces(disk, p, i) : i \in DOMAIN disk[p].decls} : p \in DOMAIN disk}

OwnBase(disk, n) ==
  LET N(x) == BasesOf(disk, x) IN n \in Closure(BasesOf(disk, n), N)

CyclePlaces(disk) ==
  UNION {{C("cycle", Sub(p, "d", i) \o "/name", disk[p].decls[i].name) :
            i \in {i \in DOMAIN disk[p].decls : disk[p].decls[i].bases # <<>> /\ OwnBase(disk, Node(p, disk[p].decls[i].name))}} : p \in DOMAIN disk}

Places(disk) == LET r == RulePlaces(disk) IN IF r # {} THEN r ELSE CyclePlaces(disk)

\* every broken rule has a place, and there is no place without a broken rule
EveryErrorHasPlaces(disk) == {c.class : c \in Places(disk)} = Errors(disk)
=============================================================================
