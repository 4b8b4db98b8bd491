------------------------------- MODULE Flutter -------------------------------
(***************************************************************************)
(* Forms and tables of Flutter: what the [ui] tags of a data and its fields    *)
(* ask for, as controls of a form and columns of a table, and what is written  *)
(* back into the data.                                                        *)
(*   control [key, kind, label, readOnly, same, saves, checks, shown, ...]     *)
(*   column  [key, index, label, cells]                                       *)
(* Values and dates are those of Views.                                       *)
(***************************************************************************)
EXTENDS Views
E == INSTANCE Enums
LOCAL INSTANCE TLC

(* -------------------------------------------------------------------- texts *)
\* the text of a tagged member in a language, else its words
Spoken(tags, name, locale) ==
  LET s == Filter(TagKvs(tags, "lang"), LAMBDA x : FirstLower(x.k) = locale)
  IN IF s = <<>> THEN E!Label(name) ELSE s[1].v[1]
FieldText(f, locale) == Spoken(f.tags, FirstLower(f.name), locale)
EnumText(decls, e, x, locale) == IF HasTag(D(decls, e).tags, "ui") THEN Spoken(x.tags, x.name, locale) ELSE Hump(x.name)

ElemText(decls, f, v, locale) == IF v.k = "enum" THEN EnumText(decls, f.type.of, ItemOf(decls, f.type.of, v.v), locale) ELSE Shown(decls, f, v)
AsText(decls, f, v, locale) == IF v.k = "list" THEN Join(Map(v.l, LAMBDA x : x.v), ",") ELSE ElemText(decls, f, v, locale)

(* ----------------------------------------------------------------- controls *)
Controls(decls, n) == Filter(AllFields(decls, n), LAMBDA f : Ui(f.tags, "form") # "")
KindOf(f) == LET form == Ui(f.tags, "form")
             IN CASE form = "text" -> "TextFormBuild" [] form = "click" -> "ClickFormBuild" [] form = "file" -> "FileFormBuild"
                  [] form = "image" -> "ImageFormBuild" [] form = "menu" -> "MenuFormBuild" [] form = "date" -> "DatetimeFormBuild" [] OTHER -> "SwitchFormBuild"
OnlyRead(f) == Ui(f.tags, "onlyRead") = "true"
\* all values of a key of the ui tag
UiAll(f, k) == LET s == Filter(TagKvs(f.tags, "ui"), LAMBDA x : x.k = k) IN IF s = <<>> THEN <<>> ELSE s[1].v

ShownAt(decls, f, v, locale) ==
  LET kind == KindOf(f)
  IN CASE kind \in {"TextFormBuild", "DatetimeFormBuild"} -> AsText(decls, f, v, locale)
       [] kind = "FileFormBuild" -> IF v.k = "null" THEN "" ELSE v.v
       [] kind = "ImageFormBuild" -> IF IsList(f) THEN (IF v.k = "null" THEN <<>> ELSE Map(v.l, LAMBDA x : x.v))
                                     ELSE IF IsNull(f) /\ (v.k = "null" \/ v.v = "") THEN <<>> ELSE <<v.v>>
       [] OTHER -> v

At(decls, f, v, locale, readOnly) ==
  LET kind == KindOf(f)
      whole == [key |-> FirstLower(f.name), kind |-> kind, label |-> FieldText(f, locale), readOnly |-> readOnly \/ OnlyRead(f), same |-> TRUE,
                saves |-> ~OnlyRead(f), checks |-> HasTag(f.tags, "verify"), shown |-> ShownAt(decls, f, v, locale)]
      files == [extensions |-> UiAll(f, "extensions")]
  IN whole @@ (CASE kind = "TextFormBuild" -> [lines |-> Number(Val(f.tags, "ui", "maxLine", "1"))]
                 [] kind = "FileFormBuild" -> files
                 [] kind = "ImageFormBuild" -> files @@ [count |-> Number(Val(f.tags, "ui", "maxCount", "1")), clip |-> Ui(f.tags, "clip") = "true",
                                                         width |-> Val(f.tags, "ui", "width", "300"), height |-> Val(f.tags, "ui", "height", "300")]
                 [] kind = "MenuFormBuild" -> [options |-> Map(D(decls, f.type.of).items, LAMBDA x :
                                                              [value |-> [k |-> "enum", v |-> x.id], text |-> "text:" \o EnumText(decls, f.type.of, x, locale)])]
                 [] OTHER -> <<>>)

(* ------------------------------------------------------------- what is saved *)
RECURSIVE SplitAt(_, _)
SplitAt(cs, acc) ==
  IF cs = <<>> THEN <<Str(Join(acc, ""))>>
  ELSE IF Head(cs) = "," THEN <<Str(Join(acc, ""))>> \o SplitAt(Tail(cs), <<>>)
  ELSE SplitAt(Tail(cs), Append(acc, Head(cs)))
\* the value a text stands for
TextAt(f, s) == IF ~IsList(f) THEN TextIn(f, s)
                ELSE IF s = "" THEN (IF IsNull(f) THEN Null ELSE [k |-> "list", l |-> <<>>])
                ELSE [k |-> "list", l |-> SplitAt(Chars(s), <<>>)]
Urls(f, l) == IF IsList(f) THEN [k |-> "list", l |-> Map(l, Str)] ELSE IF l = <<>> THEN Null ELSE Str(l[1])

\* the value of a field when e was entered into its control and the form is saved
Entered(f, e) ==
  CASE OnlyRead(f) -> [k |-> "nothing is entered"]
    [] e.k = "text" -> TextAt(f, e.v)
    [] e.k = "urls" -> Urls(f, e.l)
    [] KindOf(f) = "SwitchFormBuild" /\ e.k = "null" /\ ~IsNull(f) -> [k |-> "bool", v |-> "false"]
    [] OTHER -> e
\* texts that are not read back: the words of an item, a date in some format
OneWay(f) == KindOf(f) = "TextFormBuild" /\ f.type.of \notin (IntTypes \cup {"string", "bool", "float", "double", "decimal"})
\* and when nothing was
Saved(decls, f, v, locale) ==
  IF OnlyRead(f) \/ OneWay(f) THEN v
  ELSE CASE KindOf(f) = "TextFormBuild" -> TextAt(f, AsText(decls, f, v, locale))
         [] KindOf(f) = "FileFormBuild" -> TextAt(f, IF v.k = "null" THEN "" ELSE v.v)
         [] KindOf(f) = "ImageFormBuild" -> Urls(f, ShownAt(decls, f, v, locale))
         [] OTHER -> v
\* laws of a form: to save it twice is to save it once, and it keeps what it shows whole
Laws(decls, f, v, locale) ==
  LET once == Saved(decls, f, v, locale)
  IN /\ Saved(decls, f, once, locale) = once
     /\ v.k \in {"int", "bool", "enum", "date"} => once = v
     /\ v.k \in {"num", "dec", "list"} => (once = v \/ KindOf(f) \in {"TextFormBuild", "ImageFormBuild"})
     /\ v.k = "str" => (once = v \/ (v.v = "" /\ once = Null /\ IsNull(f)))

(* -------------------------------------------------------------------- checks *)
\* whether the check of a control refuses a text, by the rules of the schemas of the check: nothing is taken where a field
\* may be null, and else "#" of all strings and what is a value of the type
Refused(f, s) == IF IsNull(f) /\ s = "" THEN FALSE
                 ELSE IF f.type.of = "string" THEN s # "#"
                 ELSE f.type.of = "date" \/ F!Read(Chars(s), f.type.of \in IntTypes) = <<>>

(* ------------------------------------------------------------------- columns *)
Columned(decls, n) == Filter(AllFields(decls, n), LAMBDA f : Ui(f.tags, "table") # "")
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsHttp(s) == LET c == Chars(s) IN Len(c) >= 4 /\ SubSeq(c, 1, 4) = <<"h", "t", "t", "p">>
Cell(decls, f, v, locale) ==
  IF Ui(f.tags, "table") # "image" THEN "text:" \o AsText(decls, f, v, locale)
  ELSE LET s == CASE v.k = "null" -> "" [] v.k = "list" -> (IF v.l = <<>> THEN "" ELSE v.l[1].v) [] OTHER -> v.v
       IN IF IsHttp(s) THEN "image:" \o s ELSE "nothing"
ColumnAt(decls, n, k, rows, locale) ==
  LET f == Columned(decls, n)[k]
  IN [key |-> FirstLower(f.name), index |-> IF Ui(f.tags, "index") = "" THEN k ELSE Number(Ui(f.tags, "index")), label |-> "text:" \o FieldText(f, locale),
      cells |-> Map(rows, LAMBDA r : Cell(decls, f, Find(r.m, LAMBDA x : x.n = f.name)[1].v, locale))]
=============================================================================
