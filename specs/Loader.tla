------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Which files a build reads and which files it writes.                    *)
(*                                                                         *)
(* A tree is a function from path to file                                  *)
(*   [base |-> name without ".hbuf", dirs |-> sequence of directories,     *)
(*    imports |-> sequence of resolved paths, kinds |-> set of kinds that  *)
(*    the file declares, pkg |-> function of target to package]            *)
(***************************************************************************)
EXTENDS Base

---------------------------------------------------------------------------
(* -i DIR/PATTERN: every file below DIR, at any depth, whose name matches  *)
(* PATTERN, in which '*' stands for any text.                              *)

Matches(pattern, name) ==
  LET RECURSIVE M(_, _)
      M(i, j) ==
        IF i > Len(pattern) THEN j > Len(name)
        ELSE IF Char(pattern, i) = "*" THEN \E k \in j..(Len(name) + 1) : M(i + 1, k)
        ELSE j <= Len(name) /\ Char(pattern, i) = Char(name, j) /\ M(i + 1, j + 1)
  IN  M(1, 1)

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

Roots(tree, dirs, pattern) ==
  {p \in DOMAIN tree : IsPrefix(dirs, tree[p].dirs) /\ Matches(pattern, tree[p].base \o ".hbuf")}

---------------------------------------------------------------------------
(* Every import is loaded, once, wherever it lies.                         *)

Reached(tree, roots) ==
  LET N(p) == IF p \in DOMAIN tree THEN Range(tree[p].imports) ELSE {}
  IN  Closure(roots, N)

Loads(tree, roots) == Reached(tree, roots) \subseteq DOMAIN tree

---------------------------------------------------------------------------
(* The outputs of one file: one per kind of declaration, named after the   *)
(* source file; Go puts them below the directories of its package, and     *)
(* writes none without a package.                                          *)

Split(s, sep) ==
  LET RECURSIVE S(_, _)
      S(i, acc) == IF i > Len(s) THEN <<acc>>
                   ELSE IF Char(s, i) = sep THEN <<acc>> \o S(i + 1, "")
                   ELSE S(i + 1, acc \o Char(s, i))
  IN  S(1, "")

Upper == [c \in {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"} |->
  CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" []
       c = "g" -> "G" [] c = "h" -> "H" [] c = "i" -> "I" [] c = "j" -> "J" [] c = "k" -> "K" [] c = "l" -> "L" []
       c = "m" -> "M" [] c = "n" -> "N" [] c = "o" -> "O" [] c = "p" -> "P" [] c = "q" -> "Q" [] c = "r" -> "R" []
       c = "s" -> "S" [] c = "t" -> "T" [] c = "u" -> "U" [] c = "v" -> "V" [] c = "w" -> "W" [] c = "x" -> "X" []
       c = "y" -> "Y" [] OTHER -> "Z"]
Up(c) == IF c \in DOMAIN Upper THEN Upper[c] ELSE c
Capital(s) == IF s = "" THEN "" ELSE Up(Char(s, 1)) \o SubSeq(s, 2, Len(s))
Hump(s) == Join(Map(Split(s, "_"), Capital), "")

Ext == [go |-> ".go", ts |-> ".ts", dart |-> ".dart"]

Outputs(f, target) ==
  IF target = "java"
  THEN IF f.pkg.java = "" THEN {} ELSE {Hump(f.base) \o k \o ".java" : k \in {"Data", "Enum", "Server"}}
  ELSE LET names == {f.base \o "." \o k \o Ext[target] : k \in Range(f.kinds)}
       IN  IF target # "go" THEN names
           ELSE IF f.pkg.go = "" THEN {}
           ELSE {Join(Split(f.pkg.go, "."), "/") \o "/" \o n : n \in names}

Written(tree, roots, target) == UNION {Outputs(tree[p], target) : p \in Reached(tree, roots)}
=============================================================================
