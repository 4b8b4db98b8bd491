---------------------------------- MODULE Db ----------------------------------
(***************************************************************************)
(* The database operations of generated data types, as a state machine      *)
(* whose state is a table: a sequence of rows, each a function from columns   *)
(* to cells.                                                                 *)
(*                                                                          *)
(* cell   [k |-> "null"] or [k, v, i]: kind, text, ordinal.  Within a column   *)
(*        cells are equal iff their v are, and compare by i.                  *)
(* table  [fake, cols, fields, own]: own tells whether the operations are      *)
(*        those of the type of the table itself; fields are the columns.      *)
(* query  the fields of the data type that has the operations:                *)
(*   [name, col, list, opt, eopt, key, force, get, set, conds, order, group,  *)
(*    limit, offset]                                                         *)
(*   get, set  "" (none), "?", or a function of the column: MAX, MIN, COUNT,   *)
(*             SUM; ADD for  col + ?                                          *)
(*   conds     conditions, each a sequence of alternatives                    *)
(*             [col, from, cmp, arg]: column cmp parameter; from # "" : the    *)
(*             column is named by the value of that field; arg # "" : the     *)
(*             parameter is the value of that field                           *)
(* g      values of the fields: a cell or [k |-> "list", l |-> cells]          *)
(***************************************************************************)
EXTENDS Base

Null == [k |-> "null"]
IsNull(c) == c.k = "null"
Now == [k |-> "date", v |-> "1700000000000", i |-> 0]
IntCell(n) == [k |-> "int", v |-> ToString(n), i |-> n]

Key(t) == LET ks == {n \in DOMAIN t.fields : t.fields[n].key}
          IN t.fields[IF ks = {} THEN 1 ELSE CHOOSE n \in ks : \A m \in ks : m <= n]

\* the condition "the row with my key"
ByKey(t) == <<[Key(t) EXCEPT !.conds = << <<[col |-> Key(t).col, from |-> "", cmp |-> "=", arg |-> ""]>> >>,
                             !.order = "", !.group = "", !.limit = FALSE, !.offset = FALSE]>>

(* ------------------------------------------------------------- conditions *)
Compare(cmp, a, b) ==
  CASE cmp = "="  -> a.i = b.i
    [] cmp = "<>" -> a.i # b.i
    [] cmp = "<"  -> a.i < b.i
    [] cmp = ">"  -> a.i > b.i
    [] cmp = "<=" -> a.i <= b.i
    [] cmp = ">=" -> a.i >= b.i

\* comparisons with null do not hold
AltHolds(row, a, g, f, i) ==
  LET x == row[IF a.from = "" THEN a.col ELSE g[a.from].v]
      p == IF a.arg # "" THEN g[a.arg] ELSE IF i = 0 THEN g[f.name] ELSE g[f.name].l[i]
  IN  /\ ~IsNull(x)
      /\ ~IsNull(p)
      /\ IF a.cmp = "IN" THEN \E e \in Range(p.l) : ~IsNull(e) /\ e.i = x.i
         ELSE Compare(a.cmp, x, p)

\* several conditions of a list: one for each element
Many(f) == f.list /\ Len(f.conds) > 1

Applies(f, g, n) ==
  IF Many(f) THEN /\ ~IsNull(g[f.name])
                  /\ n <= Len(g[f.name].l)
                  /\ (f.eopt => ~IsNull(g[f.name].l[n]))
  ELSE IF ~f.opt THEN TRUE
  ELSE IF f.list THEN ~IsNull(g[f.name]) /\ g[f.name].l # <<>>
  ELSE ~IsNull(g[f.name])

Matches(row, fields, g) ==
  \A f \in Range(fields) : \A n \in DOMAIN f.conds :
    Applies(f, g, n) => \E a \in Range(f.conds[n]) : AltHolds(row, a, g, f, IF Many(f) THEN n ELSE 0)

Visible(t, row) == t.fake => IsNull(row["delete_time"])

(* ------------------------------------------------------------------ reading *)
Plain(f) == f.conds = <<>> /\ f.order = "" /\ f.group = "" /\ ~f.limit /\ ~f.offset
\* the fields that a read fills: those with an expression and, of the type itself, plain columns
Selected(fields, self) == Filter(fields, LAMBDA f : f.get # "" \/ (self /\ Plain(f)))
\* a get by key gives the key as well
SelectedByKey(t) == LET k == Key(t).name IN Filter(t.fields, LAMBDA f : f.get # "" \/ f.name = k \/ Plain(f))

Aggregate(f) == f.get \in {"MAX", "MIN", "COUNT", "SUM"}

RECURSIVE SumOf(_)
SumOf(cs) == IF cs = <<>> THEN 0 ELSE Head(cs).i + SumOf(Tail(cs))

\* the value of a selected field for a group of rows
ValueOf(f, rows) ==
  LET all == Map(rows, LAMBDA r : r[f.col])
      cs == Filter(all, LAMBDA c : ~IsNull(c))
  IN  CASE f.get = "COUNT" -> IntCell(Len(cs))
        [] ~Aggregate(f) -> (IF rows = <<>> THEN Null ELSE all[1])
        [] cs = <<>> -> Null
        [] f.get = "MAX" -> CHOOSE c \in Range(cs) : \A d \in Range(cs) : d.i <= c.i
        [] f.get = "MIN" -> CHOOSE c \in Range(cs) : \A d \in Range(cs) : d.i >= c.i
        [] f.get = "SUM" -> IntCell(SumOf(cs))

\* nulls come first in ascending order
Before(x, y) == IF IsNull(x) THEN ~IsNull(y) ELSE ~IsNull(y) /\ x.i < y.i

Directions == {"ASC", "DESC"}
Orders(fields, g) == LET os == Filter(fields, LAMBDA f : f.order # "" /\ ~IsNull(g[f.name]) /\ g[f.name].v \in Directions)
                     IN Map(os, LAMBDA f : [col |-> f.order, desc |-> g[f.name].v = "DESC"])
Groups(fields, g) == LET gs == Filter(fields, LAMBDA f : f.group # "" /\ (f.opt => ~IsNull(g[f.name]))) IN Map(gs, LAMBDA f : f.group)

\* rows x and y (with their positions) in the order of os; equal ones as they are stored
RECURSIVE Less(_, _, _)
Less(os, x, y) ==
  IF os = <<>> THEN x.n < y.n
  ELSE LET a == IF Head(os).desc THEN y.r[Head(os).col] ELSE x.r[Head(os).col]
           b == IF Head(os).desc THEN x.r[Head(os).col] ELSE y.r[Head(os).col]
       IN  Before(a, b) \/ (~Before(b, a) /\ Less(Tail(os), x, y))

\* groups of rows, in the order of their first rows
Grouped(cols, rows, agg) ==
  IF cols # <<>> THEN
    LET key(r) == Map(cols, LAMBDA c : r[c])
        firsts == Filter([n \in DOMAIN rows |-> n], LAMBDA n : \A m \in 1..(n - 1) : key(rows[m]) # key(rows[n]))
    IN  Map(firsts, LAMBDA n : Filter(rows, LAMBDA r : key(r) = key(rows[n])))
  ELSE IF agg THEN <<rows>>
  ELSE Map(rows, LAMBDA r : <<r>>)

Sorted(os, gs) ==
  IF os = <<>> THEN gs
  ELSE LET xs == [n \in DOMAIN gs |-> [n |-> n, r |-> gs[n][1]]]
       IN  Map(SortSeq(xs, LAMBDA x, y : Less(os, x, y)), LAMBDA x : gs[x.n])

Page(fields, g, s) ==
  LET ls == Filter(fields, LAMBDA f : f.limit)
      fs == Filter(fields, LAMBDA f : f.offset)
      off == IF fs = <<>> THEN 0 ELSE g[fs[1].name].i
  IN  IF ls = <<>> THEN s
      ELSE SubSeq(s, off + 1, IF off + g[ls[1].name].i > Len(s) THEN Len(s) ELSE off + g[ls[1].name].i)

Hits(t, where, g, rows) == Filter(rows, LAMBDA r : Visible(t, r) /\ Matches(r, where, g))

\* the groups that a read of sel gives
Read(t, where, sel, g, rows) ==
  Sorted(Orders(where, g),
         Grouped(Groups(where, g), Hits(t, where, g, rows), \E f \in Range(sel) : Aggregate(f)))

Result(sel, grp) == [n \in {f.name : f \in Range(sel)} |->
                       LET f == CHOOSE f \in Range(sel) : f.name = n IN ValueOf(f, grp)]

(* ------------------------------------------------------------------ writing *)
Writes(f, self) == IF f.set # "" THEN f.set ELSE IF self THEN "?" ELSE ""

NewCell(f, how, old, v) ==
  IF how = "?" THEN v
  ELSE \* ADD
       IF IsNull(old) \/ IsNull(v) THEN Null ELSE IntCell(old.i + v.i)

\* the fields that a write assigns; skip: null leaves the column alone
Assigned(fields, self, g, skip) ==
  Filter(fields, LAMBDA f : Writes(f, self) # "" /\ ~(skip /\ f.opt /\ ~f.force /\ IsNull(g[f.name])))

Assign(row, fs, self, g) ==
  [c \in DOMAIN row |->
     LET ws == Filter(fs, LAMBDA f : f.col = c)
     IN IF ws = <<>> THEN row[c] ELSE NewCell(ws[1], Writes(ws[1], self), row[c], g[ws[1].name])]

Blank(t) == [c \in Range(t.cols) |-> Null]

\* the positions of the rows that a write is about
Chosen(where, g, rows) == Page(where, g, Filter([n \in DOMAIN rows |-> n], LAMBDA n : Matches(rows[n], where, g)))

Change(where, g, rows, NewRow(_)) ==
  LET ns == Chosen(where, g, rows)
  IN  [rows |-> [n \in DOMAIN rows |-> IF n \in Range(ns) THEN NewRow(rows[n]) ELSE rows[n]], count |-> Len(ns)]

(* --------------------------------------------------------------- operations *)
Fails(rows) == [rows |-> rows, err |-> TRUE, count |-> 0, result |-> <<>>]
Wrote(rows, n) == [rows |-> rows, err |-> FALSE, count |-> n, result |-> <<>>]
Gave(rows, r) == [rows |-> rows, err |-> FALSE, count |-> 0, result |-> r]

\* op: [op, scope, key]; q: the query fields; list: the values of an insert of many
Apply(t, q, op, g, list, rows) ==
  LET self == op.scope = "self"
      byKey == t.own /\ op.op \in {"del", "rm", "update", "set", "get"}
      where == IF byKey THEN ByKey(t) ELSE q
      nolimit == Map(where, LAMBDA f : [f EXCEPT !.limit = FALSE, !.offset = FALSE])
      setsOwn == t.own /\ self
      \* reads: of the type itself its own columns; of another type, its own or the table's
      sel == IF t.own THEN (IF op.op = "get" THEN SelectedByKey(t) ELSE Selected(t.fields, self))
             ELSE IF self THEN Selected(q, TRUE) ELSE Selected(t.fields, TRUE)
      groups == Read(t, where, sel, g, rows)
  IN
  CASE op.op = "insert" ->
         LET fs == Assigned(q, setsOwn, g, TRUE)
         IN IF fs = <<>> THEN Fails(rows) ELSE Wrote(Append(rows, Assign(Blank(t), fs, setsOwn, g)), 1)
    [] op.op = "inserts" ->
         Wrote(rows \o Map(list, LAMBDA v : Assign(Blank(t), Map(t.fields, LAMBDA f : [f EXCEPT !.set = ""]), TRUE, v)), Len(list))
    [] op.op \in {"update", "set"} ->
         LET fs == Assigned(q, setsOwn, g, op.op = "update")
             c == Change(nolimit, g, rows, LAMBDA r : Assign(r, fs, setsOwn, g))
         IN IF fs = <<>> THEN Fails(rows) ELSE Wrote(c.rows, c.count)
    [] op.op = "del" /\ t.fake ->
         LET c == Change(where, g, rows, LAMBDA r : [r EXCEPT !["delete_time"] = Now]) IN Wrote(c.rows, c.count)
    [] op.op = "rm" \/ (op.op = "del" /\ ~t.fake) ->
         LET ns == Chosen(where, g, rows)
         IN Wrote(Map(Filter([n \in DOMAIN rows |-> n], LAMBDA n : n \notin Range(ns)), LAMBDA n : rows[n]), Len(ns))
    [] op.op = "get" -> Gave(rows, IF groups = <<>> THEN <<>> ELSE <<Result(sel, groups[1])>>)
    [] op.op = "list" -> Gave(rows, Map(Page(where, g, groups), LAMBDA x : Result(sel, x)))
    [] op.op = "map" ->
         \* of rows with the same key the last
         LET rs == Map(Page(where, g, groups), LAMBDA x : Result(sel, x))
             last == Filter([n \in DOMAIN rs |-> n], LAMBDA n : \A m \in (n + 1)..Len(rs) : rs[m][op.key] # rs[n][op.key])
         IN Gave(rows, Map(last, LAMBDA n : rs[n]))
    [] op.op = "count" -> [Gave(rows, <<>>) EXCEPT !.count = Len(Hits(t, nolimit, g, rows))]
=============================================================================
