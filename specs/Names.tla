-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Names in generated code.  A declared name is a sequence of words: words *)
(* are separated by '_' and every capital letter begins one.               *)
(***************************************************************************)
EXTENDS Base

Lowers == "abcdefghijklmnopqrstuvwxyz"
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerSet == Range(Chars(Lowers))
UpperSet == Range(Chars(Uppers))
UpOf == [c \in LowerSet |-> LET i == CHOOSE i \in 1..26 : Char(Lowers, i) = c IN Char(Uppers, i)]
LowOf == [c \in UpperSet |-> LET i == CHOOSE i \in 1..26 : Char(Uppers, i) = c IN Char(Lowers, i)]
Up(c) == IF c \in LowerSet THEN UpOf[c] ELSE c
Low(c) == IF c \in UpperSet THEN LowOf[c] ELSE c

MapStr(s, F(_)) == Join(Map(Chars(s), F), "")
UpperStr(s) == MapStr(s, Up)
LowerStr(s) == MapStr(s, Low)

\* the parts between '_'
RECURSIVE Split(_, _)
Split(s, cur) ==
  IF Len(s) = 0 THEN <<cur>>
  ELSE IF Char(s, 1) = "_" THEN <<cur>> \o Split(SubSeq(s, 2, Len(s)), "")
  ELSE Split(SubSeq(s, 2, Len(s)), cur \o Char(s, 1))
Parts(s) == Filter(Split(s, ""), LAMBDA p : p # "")

RECURSIVE Capitals(_, _)
Capitals(s, cur) ==
  IF Len(s) = 0 THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
  ELSE IF Char(s, 1) \in UpperSet
       THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Capitals(SubSeq(s, 2, Len(s)), Char(s, 1))
       ELSE Capitals(SubSeq(s, 2, Len(s)), cur \o Char(s, 1))
Words(s) == Concat(Map(Parts(s), LAMBDA p : Capitals(p, "")))

Capital(p) == Up(Char(p, 1)) \o SubSeq(p, 2, Len(p))
\* user_info, userInfo -> UserInfo
Hump(s) == Join(Map(Parts(s), Capital), "")
\* UserInfo -> userInfo
FirstLower(s) == LET h == Hump(s) IN Low(Char(h, 1)) \o SubSeq(h, 2, Len(h))
\* userInfo -> user_info
Underline(s) == Join(Map(Words(s), LowerStr), "_")
\* userInfo -> USER_INFO
AllUpper(s) == Join(Map(Words(s), UpperStr), "_")
=============================================================================
