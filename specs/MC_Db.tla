-------------------------------- MODULE MC_Db --------------------------------
(***************************************************************************)
(* All histories of a small table: what the operations promise each other.   *)
(***************************************************************************)
EXTENDS Db

CONSTANTS MaxRows, Fake, Ids, Qtys

C(n) == [k |-> "int", v |-> ToString(n), i |-> n]
S(n) == [k |-> "str", v |-> n, i |-> IF n = "ASC" THEN 1 ELSE IF n = "DESC" THEN 2 ELSE 3]
F(n, opt) == [name |-> n, col |-> n, list |-> FALSE, opt |-> opt, eopt |-> FALSE, key |-> n = "id", force |-> FALSE,
              get |-> "", set |-> "", conds |-> <<>>, order |-> "", group |-> "", limit |-> FALSE, offset |-> FALSE]
Cols == <<F("id", FALSE), F("qty", TRUE), [F("tag", TRUE) EXCEPT !.force = TRUE]>>
Table == [fake |-> Fake, cols |-> <<"id", "qty", "tag", "delete_time">>, fields |-> Cols, own |-> TRUE]

\* another type over the same table: conditions, order, a page
Cond(col, cmp) == << <<[col |-> col, from |-> "", cmp |-> cmp, arg |-> ""]>> >>
Find1 == <<[F("qty", TRUE) EXCEPT !.conds = Cond("qty", ">=")], [F("sort", TRUE) EXCEPT !.order = "qty"],
          [F("limit", FALSE) EXCEPT !.limit = TRUE], [F("offset", FALSE) EXCEPT !.offset = TRUE]>>
Stat == <<[F("n", FALSE) EXCEPT !.get = "COUNT", !.col = "id"], [F("most", TRUE) EXCEPT !.get = "MAX", !.col = "qty"]>>

Op(o, s) == [op |-> o, scope |-> s, key |-> "id"]
Opt(s) == s \cup {Null}
Values == {[id |-> C(a), qty |-> b, tag |-> c] : a \in Ids, b \in Opt({C(n) : n \in Qtys}), c \in Opt({C(1)})}
Finds == {[qty |-> b, sort |-> s, limit |-> C(l), offset |-> C(o)] :
            b \in Opt({C(n) : n \in Qtys}), s \in Opt({S("ASC"), S("DESC")}), l \in 0..MaxRows, o \in 0..MaxRows}

VARIABLES rows, last
vars == <<rows, last>>
RowsOnly == rows
Own(o, g) == Apply(Table, Cols, Op(o, "self"), g, <<>>, rows)
Other == [Table EXCEPT !.own = FALSE]

Init == rows = <<>> /\ last = <<>>
Do(o, g) == /\ o = "insert" => (Len(rows) < MaxRows /\ \A r \in Range(rows) : r["id"] # g.id)
            /\ rows' = Own(o, g).rows
            /\ last' = <<o, g, rows, Own(o, g).count>>
Next == \E o \in {"insert", "update", "set", "del", "rm"} : \E g \in Values : Do(o, g)
Spec == Init /\ [][Next]_vars

GetBy(id) == Own("get", [id |-> id, qty |-> Null, tag |-> Null]).result
List == Own("list", [id |-> Null, qty |-> Null, tag |-> Null]).result
View(r) == [id |-> r["id"], qty |-> r["qty"], tag |-> r["tag"]]

Is(o) == last # <<>> /\ last[1] = o
G == last[2]
Others(rs) == Filter(rs, LAMBDA r : r["id"] # G.id)

InsertReads == Is("insert") => GetBy(G.id) = <<G>>
\* writing by key leaves all other rows alone
OthersStay == (Is("update") \/ Is("set") \/ Is("del") \/ Is("rm")) => Others(rows) = Others(last[3])
\* an update keeps what is null, except where null is forced; a set does not
UpdateReads == Is("update") => \A r \in Range(rows) : r["id"] = G.id =>
                 /\ (~IsNull(G.qty) => r["qty"] = G.qty)
                 /\ (IsNull(G.qty) => \E s \in Range(last[3]) : s["id"] = G.id /\ r["qty"] = s["qty"])
                 /\ r["tag"] = G.tag
SetReads == Is("set") => \A r \in Range(rows) : r["id"] = G.id => View(r) = G
CountsRows == (Is("update") \/ Is("set") \/ Is("del") \/ Is("rm")) =>
                 last[4] = Cardinality({n \in DOMAIN last[3] : last[3][n]["id"] = G.id})
DelHides == (Is("del") \/ Is("rm")) => GetBy(G.id) = <<>> /\ \A v \in Range(List) : v.id # G.id
DelKeeps == Is("del") /\ Fake => Len(rows) = Len(last[3])
RmRemoves == Is("rm") => \A r \in Range(rows) : r["id"] # G.id
\* reads agree with each other
ListIsVisible == List = Map(Filter(rows, LAMBDA r : Visible(Table, r)), View)
ReadsAgree == \A f \in Finds :
   LET full == Apply(Other, Find1, Op("list", "parent"), [f EXCEPT !.limit = C(MaxRows), !.offset = C(0)], <<>>, rows).result
       page == Apply(Other, Find1, Op("list", "parent"), f, <<>>, rows).result
       map == Apply(Other, Find1, Op("map", "parent"), f, <<>>, rows).result
       get == Apply(Other, Find1, Op("get", "parent"), f, <<>>, rows).result
       count == Apply(Other, Find1, Op("count", ""), f, <<>>, rows).count
   IN  /\ count = Len(full)
       /\ Len(page) <= f.limit.i
       /\ \A n \in DOMAIN page : page[n] = full[n + f.offset.i]
       /\ (f.limit.i > 0 /\ f.offset.i < Len(full) => page # <<>>)
       /\ get = SubSeq(full, 1, IF full = <<>> THEN 0 ELSE 1)
       /\ Range(map) = Range(page)
       /\ Cardinality(Range(full)) = Len(full)
       /\ ~IsNull(f.sort) => \A n \in 1..(Len(full) - 1) :
            IF f.sort.v = "ASC" THEN ~Before(full[n + 1].qty, full[n].qty) ELSE ~Before(full[n].qty, full[n + 1].qty)
       /\ Range(full) = {v \in Range(List) : IsNull(f.qty) \/ (~IsNull(v.qty) /\ v.qty.i >= f.qty.i)}
Stats == LET s == Apply(Other, Stat, Op("get", "self"), [n |-> Null, most |-> Null], <<>>, rows).result
         IN  /\ Len(s) = 1
             /\ s[1].n.i = Len(List)
             /\ (IsNull(s[1].most) <=> \A v \in Range(List) : IsNull(v.qty))
             /\ \A v \in Range(List) : ~IsNull(v.qty) => v.qty.i <= s[1].most.i
=============================================================================
