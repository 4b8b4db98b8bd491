-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* Views: what the [ui] tags of a data and its fields ask for, as items of a *)
(* form and columns of a table.  What can be seen of one:                     *)
(*   form item  [key, prop, label, rule, tag, type, disabled, clearable,       *)
(*               multiple, unlink, options, shown]                           *)
(*   column     [key, prop, label, width, tag, disabled, shown]               *)
(* Dates are [k |-> "date", d |-> day, t |-> millisecond of the day]; the rest *)
(* of the values is that of Wire.  Local time is an hour ahead in the check.  *)
(***************************************************************************)
EXTENDS Model
F == INSTANCE Forms

Null == [k |-> "null"]
Str(s) == [k |-> "str", v |-> s]

\* the value of a key of the tag n: its first text
Val(tags, n, k, default) ==
  LET s == Filter(TagKvs(tags, n), LAMBDA x : x.k = k) IN IF s = <<>> THEN default ELSE s[1].v[1]
Ui(tags, k) == Val(tags, "ui", k, "")
HasTag(tags, n) == \E i \in DOMAIN tags : tags[i].name = n

HasView(decls, n, view) == Ui(D(decls, n).tags, view) = "true"
Items(decls, n, view) == Filter(AllFields(decls, n), LAMBDA f : Ui(f.tags, view) # "")

(* -------------------------------------------------------------------- texts *)
TextKey(n, member) == FirstLower(n) \o "Lang." \o member
\* what the check's translator makes of the key of a text
Said(key) == "t:" \o key
Label(n, f) == Said(TextKey(n, FirstLower(f.name)))

DigitText(d) == Join(Map(d, LAMBDA x : ToString(x)), "")
RECURSIVE Plus1(_)
Plus1(d) == IF d = <<>> THEN <<1>>
            ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
            ELSE Plus1(SubSeq(d, 1, Len(d) - 1)) \o <<0>>
\* a number with n digits behind the point, rounded
Fixed(v, n) ==
  LET x == F!Read(Chars(v), FALSE)[1]
      int == IF x.int = <<>> THEN <<0>> ELSE x.int
      frac == x.frac \o F!Zeros(IF n > Len(x.frac) THEN n - Len(x.frac) ELSE 0)
      cut == int \o SubSeq(frac, 1, n)
      all == IF Len(frac) > n /\ frac[n + 1] >= 5 THEN Plus1(cut) ELSE cut
      p == Len(all) - n
  IN (IF x.neg THEN "-" ELSE "") \o DigitText(SubSeq(all, 1, p)) \o (IF n = 0 THEN "" ELSE "." \o DigitText(SubSeq(all, p + 1, Len(all))))

RECURSIVE IntOf(_, _)
IntOf(d, n) == IF d = <<>> THEN n ELSE IntOf(Tail(d), 10 * n + Head(d))
Number(text) == IntOf(F!Read(Chars(text), TRUE)[1].int, 0)

ItemOf(decls, e, id) == LET is == D(decls, e).items IN is[CHOOSE i \in DOMAIN is : is[i].id = id]
ItemText(decls, e, x) == Said(TextKey(e, Hump(x.name)))

DateText(v, format) == "fd:" \o ToString(v.d) \o ":" \o ToString(v.t) \o ":" \o format

\* a value as text
RECURSIVE Shown(_, _, _)
Shown(decls, f, v) ==
  LET digit == Val(f.tags, "ui", "digit", "0")
      format == IF Ui(f.tags, "format") = "" THEN "yyyy/MM/dd HH:mm:ss" ELSE Ui(f.tags, "format")
  IN CASE v.k = "null" -> ""
       [] v.k \in {"num", "dec"} -> Fixed(v.v, Number(digit))
       [] v.k = "date" -> DateText(v, format)
       [] v.k = "enum" -> ItemText(decls, f.type.of, ItemOf(decls, f.type.of, v.v))
       [] v.k = "list" -> Join(Map(v.l, LAMBDA x : x.v), ",")
       [] OTHER -> v.v

(* -------------------------------------------------------------------- dates *)
Day == 86400000
Local(v) == IF v.k # "date" THEN v ELSE IF v.t + 3600000 < Day THEN [v EXCEPT !.t = @ + 3600000] ELSE [v EXCEPT !.d = @ + 1, !.t = @ + 3600000 - Day]
Utc(v) == IF v.k # "date" THEN v ELSE IF v.t >= 3600000 THEN [v EXCEPT !.t = @ - 3600000] ELSE [v EXCEPT !.d = @ - 1, !.t = @ - 3600000 + Day]
DayEnd(v) == [v EXCEPT !.t = Day - 1]

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* the last day of the month of day d, if the month y, m begins with day b (days count from 1970)
RECURSIVE LastDay(_, _, _, _)
LastDay(d, b, y, m) ==
  IF m = 1 /\ d - b >= 366 THEN LastDay(d, b + (IF Leap(y) THEN 366 ELSE 365), y + 1, 1)
  ELSE IF d < b + DaysIn(y, m) THEN b + DaysIn(y, m) - 1
  ELSE LastDay(d, b + DaysIn(y, m), IF m = 12 THEN y + 1 ELSE y, IF m = 12 THEN 1 ELSE m + 1)
MonthEnd(v) == [k |-> "date", d |-> LastDay(v.d, 0, 1970, 1), t |-> Day - 1]

(* -------------------------------------------------------------- form items *)
Pickers == {"datetime", "date", "dates", "month", "year"}
IsPicker(f) == Ui(f.tags, "form") \in Pickers
IsNull(f) == IF f.type.shape = "one" THEN f.type.opt ELSE f.type.copt
IsList(f) == f.type.shape = "list"

PickerType(form, list) ==
  IF ~list THEN form
  ELSE CASE form = "datetime" -> "datetimerange"
         [] form = "date" -> "daterange"
         [] form = "month" -> "monthrange"
         [] form = "year" -> "years"
         [] OTHER -> "dates"

Control(f) ==
  LET form == Ui(f.tags, "form")
  IN CASE form \in Pickers -> "el-date-picker"
       [] form = "menu" -> "el-select"
       [] form = "switch" -> "el-switch"
       [] form \in {"radio", "radioButton"} -> "el-radio-group"
       [] form = "pass" -> "el-input"
       [] IsList(f) -> "el-select"
       [] OTHER -> "el-input"

Options(decls, f) ==
  LET form == Ui(f.tags, "form")
      tag == CASE form = "menu" -> "el-option" [] form = "radio" -> "el-radio" [] OTHER -> "el-radio-button"
  IN IF form \notin {"menu", "radio", "radioButton"} THEN <<>>
     ELSE Map(D(decls, f.type.of).items, LAMBDA x : [tag |-> tag, key |-> x.id, value |-> x.id, label |-> ItemText(decls, f.type.of, x)])

ShownIn(decls, f, v) ==
  IF IsPicker(f) THEN IF v.k = "list" THEN [v EXCEPT !.l = Map(v.l, Local)] ELSE Local(v)
  ELSE IF Ui(f.tags, "form") = "switch" /\ v.k = "null" THEN [k |-> "bool", v |-> "false"]
  ELSE IF Control(f) # "el-input" THEN v
  ELSE Str(Shown(decls, f, v))

FormItem(decls, n, f, v) ==
  [prop |-> FirstLower(f.name), key |-> FirstLower(f.name), label |-> Label(n, f),
   rule |-> IF HasTag(f.tags, "verify") THEN f.name ELSE "",
   tag |-> Control(f),
   type |-> IF IsPicker(f) THEN PickerType(Ui(f.tags, "form"), IsList(f)) ELSE IF Ui(f.tags, "form") = "pass" THEN "password" ELSE "",
   disabled |-> Ui(f.tags, "onlyRead") = "true",
   clearable |-> IsNull(f) /\ Ui(f.tags, "form") \notin {"switch", "radio", "radioButton"},
   multiple |-> Control(f) = "el-select" /\ Ui(f.tags, "form") # "menu",
   unlink |-> IsPicker(f) /\ Ui(f.tags, "unlink") = "true",
   options |-> Options(decls, f),
   shown |-> ShownIn(decls, f, v)]

\* what is left in a field when its item was shown
Kept(f, v) == IF Ui(f.tags, "form") = "switch" /\ v.k = "null" THEN [k |-> "bool", v |-> "false"] ELSE v

\* the value of a field after an event at its item: a typed text, a chosen value, local dates
Whole(d) == DigitText(IF d = <<>> THEN <<0>> ELSE d)
Canon(x) == (IF x.neg THEN "-" ELSE "") \o Whole(x.int) \o (IF x.frac = <<>> THEN "" ELSE "." \o DigitText(x.frac))
TextIn(f, s) ==
  LET of == f.type.of
      whole == of \in IntTypes
      x == F!Read(Chars(s), whole)
      signed == Char(of, 1) # "u" \/ Char(s, 1) # "-"
  IN IF f.type.opt /\ s = "" THEN Null
     ELSE CASE of = "string" -> Str(s)
            [] of = "bool" -> [k |-> "bool", v |-> IF s = "true" THEN "true" ELSE "false"]
            [] of = "decimal" -> IF x = <<>> THEN Null ELSE [k |-> "dec", v |-> Canon(x[1])]
            [] OTHER -> IF x = <<>> \/ ~signed THEN [k |-> "text", v |-> s]
                        ELSE [k |-> IF whole THEN "int" ELSE "num", v |-> Canon(x[1])]

Range2(l, End(_)) == <<Utc(l[1]), Utc(End(l[2]))>>
After(f, e) ==
  LET form == Ui(f.tags, "form")
      list(l) == [k |-> "list", l |-> l]
  IN IF e.k = "text" THEN TextIn(f, e.v)
     ELSE IF ~IsPicker(f) \/ e.k = "null" THEN e
     ELSE IF ~IsList(f) THEN (IF form = "dates" THEN (IF e.l = <<>> THEN Null ELSE Utc(e.l[1])) ELSE Utc(e))
     ELSE IF form = "date" THEN list(Range2(e.l, DayEnd))
     ELSE IF form = "month" THEN list(Range2(e.l, MonthEnd))
     ELSE list(Map(e.l, Utc))

(* ------------------------------------------------------------------ columns *)
Column(decls, n, f, v) ==
  LET table == Ui(f.tags, "table")
  IN [prop |-> FirstLower(f.name), key |-> FirstLower(f.name), label |-> Label(n, f),
      width |-> Val(f.tags, "ui", "width", "160"),
      tag |-> CASE table = "image" -> "el-popover" [] table = "switch" -> "el-switch" [] OTHER -> "text",
      disabled |-> table = "switch",
      shown |-> IF table \in {"image", "switch"} THEN v ELSE Str(Shown(decls, f, v))]

(* -------------------------------------------------------------- arrangement *)
\* which keys are shown, in order: those of position first, then the others that are not hidden
RECURSIVE Firsts(_)
Firsts(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Firsts(Filter(Tail(s), LAMBDA x : x # Head(s)))
AllKeys(keys, slots) == keys \o Filter(slots, LAMBDA k : k \notin Range(keys))
Arranged(keys, slots, position, hide) ==
  LET all == AllKeys(keys, slots)
      front == Firsts(Filter(position, LAMBDA k : k \in Range(all)))
  IN front \o Filter(all, LAMBDA k : k \notin Range(front) /\ k \notin hide)

(* -------------------------------------------------------------------- texts *)
\* the members of a declaration that have texts
Texted(decls, n) ==
  LET d == D(decls, n)
  IN IF d.kind = "enum" THEN (IF HasTag(d.tags, "ui") THEN Map(d.items, LAMBDA x : [name |-> Hump(x.name), tags |-> x.tags]) ELSE <<>>)
     ELSE IF d.kind # "data" THEN <<>>
     ELSE Map(Filter(AllFields(decls, n), LAMBDA f : \E v \in {"form", "table"} : HasView(decls, n, v) /\ Ui(f.tags, v) # ""),
              LAMBDA f : [name |-> FirstLower(f.name), tags |-> f.tags])
Languages(ms) == {"en"} \cup UNION {{FirstLower(TagKvs(ms[i].tags, "lang")[j].k) : j \in DOMAIN TagKvs(ms[i].tags, "lang")} : i \in DOMAIN ms}
TextIn2(m, l) == LET s == Filter(TagKvs(m.tags, "lang"), LAMBDA x : FirstLower(x.k) = l) IN IF s = <<>> THEN "" ELSE s[1].v[1]
Texts(decls, n) ==
  LET ms == Texted(decls, n)
  IN {[lang |-> l, texts |-> {[key |-> ms[i].name, text |-> TextIn2(ms[i], l)] : i \in DOMAIN ms}] : l \in IF ms = <<>> THEN {} ELSE Languages(ms)}

\* every label that a view of n or an item of n asks for has a text, in every language there is
LabelsOf(decls, n) ==
  IF D(decls, n).kind = "enum" THEN {Hump(D(decls, n).items[i].name) : i \in DOMAIN D(decls, n).items}
  ELSE UNION {{FirstLower(Items(decls, n, v)[i].name) : i \in DOMAIN Items(decls, n, v)} : v \in {w \in {"form", "table"} : HasView(decls, n, w)}}
Complete(decls, n) == \A l \in Texts(decls, n) : {x.key : x \in l.texts} = LabelsOf(decls, n)
=============================================================================
