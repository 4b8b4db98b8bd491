-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* From characters to words: names, numbers, texts in quotes and in back-   *)
(* quotes, comments and line ends.  A text is a sequence of characters;     *)
(* some have names of more than one letter:                                 *)
(*   nl cr tab  line feed, carriage return, tab                             *)
(*   E1 C1      letters outside ASCII (U+00E9, U+4E2D)                       *)
(*   D1         a digit outside ASCII (U+0663)                              *)
(*   S1         a blank outside ASCII (U+00A0), which is none               *)
(*   bom nul bad   U+FEFF, U+0000, a byte that is not UTF-8                  *)
(***************************************************************************)
EXTENDS Base

LettersUp == Range(Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ"))
LettersLow == Range(Chars("abcdefghijklmnopqrstuvwxyz"))
Letters == LettersUp \cup LettersLow \cup {"_", "E1", "C1"}
Decimals == Range(Chars("0123456789"))
Digits == Decimals \cup {"D1"}
Blanks == {" ", "tab", "cr"}
Wrong == {"bom", "nul", "bad"}          \* nowhere, not even in comments; but a file may begin with bom

Hex == [c \in Range(Chars("0123456789abcdefABCDEF")) |->
          LET at(s) == CHOOSE i \in 1..16 : Char(s, i) = c
          IN IF \E i \in 1..16 : Char("0123456789abcdef", i) = c THEN at("0123456789abcdef") - 1 ELSE at("0123456789ABCDEF") - 1]

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ascii == [c \in Range(Chars(Printable)) |-> 31 + CHOOSE i \in 1..Len(Printable) : Char(Printable, i) = c]
Utf8(n) == IF n < 128 THEN <<n>>
           ELSE IF n < 2048 THEN <<192 + n \div 64, 128 + (n % 64)>>
           ELSE IF n < 65536 THEN <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
           ELSE <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
Bytes(c) == CASE c = "nl" -> <<10>> [] c = "cr" -> <<13>> [] c = "tab" -> <<9>>
              [] c = "E1" -> Utf8(233) [] c = "C1" -> Utf8(20013) [] c = "D1" -> Utf8(1635) [] c = "S1" -> Utf8(160)
              [] OTHER -> <<Ascii[c]>>

\* the end of the longest piece of x from p on that is made of characters of S
RECURSIVE Behind(_, _, _)
Behind(x, p, S) == IF p > Len(x) \/ x[p] \notin S THEN p ELSE Behind(x, p + 1, S)
Clean(x, p, e) == \A i \in p..(e - 1) : x[i] \notin Wrong
Is(x, p, S) == p <= Len(x) /\ x[p] \in S

Unknown == -1
RECURSIVE Value(_, _)
Value(ds, base) == IF ds = <<>> THEN 0 ELSE Value(SubSeq(ds, 1, Len(ds) - 1), base) * base + Hex[ds[Len(ds)]]

\* numbers: 12, 0x1F, 0o17, 017, 0b11; a _ between two digits, or behind the prefix
Number(x, p) ==
  LET pre   == x[p] = "0" /\ Is(x, p + 1, {"x", "X", "o", "O", "b", "B"})
      base  == IF ~pre THEN IF x[p] = "0" THEN 8 ELSE 10
               ELSE CASE x[p + 1] \in {"x", "X"} -> 16 [] x[p + 1] \in {"o", "O"} -> 8 [] OTHER -> 2
      b     == IF pre THEN p + 2 ELSE p
      e     == Behind(x, b, (IF base = 16 THEN DOMAIN Hex ELSE Decimals) \cup {"_"})
      body  == SubSeq(x, b, e - 1)
      ds    == SelectSeq(body, LAMBDA c : c # "_")
      apart == \A i \in DOMAIN body : body[i] = "_" => /\ i < Len(body) /\ body[i + 1] # "_"
      ok    == ds # <<>> /\ apart /\ \A i \in DOMAIN ds : Hex[ds[i]] < base
  IN [t |-> "int", p |-> p, e |-> e, ok |-> ok, v |-> IF ~ok THEN <<>> ELSE IF Len(ds) > 7 THEN <<Unknown>> ELSE <<Value(ds, base)>>]

\* what follows a backslash at q - 1: its end and the bytes it stands for
Simple == [c \in Range(Chars("abfnrtv\\\"")) |->
             CASE c = "a" -> 7 [] c = "b" -> 8 [] c = "f" -> 12 [] c = "n" -> 10 [] c = "r" -> 13 [] c = "t" -> 9 [] c = "v" -> 11
               [] OTHER -> Ascii[c]]
Escape(x, q) ==
  LET none == [ok |-> FALSE, e |-> q, v |-> <<>>]
      digits(from, n, base) == from + n - 1 <= Len(x) /\ \A i \in from..(from + n - 1) : x[i] \in DOMAIN Hex /\ Hex[x[i]] < base
      val(from, n, base) == Value(SubSeq(x, from, from + n - 1), base)
      letter(from, n) == LET n0 == val(from, n, 16)
                         IN IF n0 > 1114111 \/ (n0 >= 55296 /\ n0 < 57344) THEN none
                            ELSE [ok |-> TRUE, e |-> from + n, v |-> Utf8(n0)]
  IN IF q > Len(x) THEN none
     ELSE IF x[q] \in DOMAIN Simple THEN [ok |-> TRUE, e |-> q + 1, v |-> <<Simple[x[q]]>>]
     ELSE IF x[q] \in Range(Chars("01234567"))
          THEN IF digits(q, 3, 8) /\ val(q, 3, 8) <= 255 THEN [ok |-> TRUE, e |-> q + 3, v |-> <<val(q, 3, 8)>>] ELSE none
     ELSE IF x[q] = "x" THEN IF digits(q + 1, 2, 16) THEN [ok |-> TRUE, e |-> q + 3, v |-> <<val(q + 1, 2, 16)>>] ELSE none
     ELSE IF x[q] = "u" THEN IF digits(q + 1, 4, 16) THEN letter(q + 1, 4) ELSE none
     ELSE IF x[q] = "U" THEN IF digits(q + 1, 8, 16) /\ x[q + 1] = "0" /\ x[q + 2] = "0" THEN letter(q + 3, 6) ELSE none
     ELSE none

RECURSIVE Quoted(_, _)
Quoted(x, p) ==
  IF p > Len(x) \/ x[p] = "nl" THEN [ok |-> FALSE, e |-> p, v |-> <<>>]
  ELSE IF x[p] = "\"" THEN [ok |-> TRUE, e |-> p + 1, v |-> <<>>]
  ELSE LET s == IF x[p] = "\\" THEN Escape(x, p + 1)
                ELSE IF x[p] \in Wrong THEN [ok |-> FALSE, e |-> p + 1, v |-> <<>>]
                ELSE [ok |-> TRUE, e |-> p + 1, v |-> Bytes(x[p])]
           r == Quoted(x, s.e)
       IN [ok |-> s.ok /\ r.ok, e |-> r.e, v |-> s.v \o r.v]

\* between backquotes everything stands for itself, but carriage returns are dropped
Raw(x, p) ==
  LET ends == {q \in p..Len(x) : x[q] = "`"}
      e == IF ends = {} THEN Len(x) + 1 ELSE (CHOOSE q \in ends : \A o \in ends : q <= o) + 1
      ok == ends # {} /\ Clean(x, p, e)
  IN [ok |-> ok, e |-> e, v |-> IF ok THEN Concat(Map(SelectSeq(SubSeq(x, p, e - 2), LAMBDA c : c # "cr"), Bytes)) ELSE <<>>]

Token(x, p) ==
  LET tok(t, e, ok, v) == [t |-> t, p |-> p, e |-> e, ok |-> ok, v |-> v]
      c == x[p]
      lineEnd == LET nls == {q \in p..Len(x) : x[q] = "nl"} IN IF nls = {} THEN Len(x) + 1 ELSE CHOOSE q \in nls : \A o \in nls : q <= o
      closes == {q \in (p + 2)..(Len(x) - 1) : x[q] = "*" /\ x[q + 1] = "/"}
      close == IF closes = {} THEN Len(x) + 1 ELSE (CHOOSE q \in closes : \A o \in closes : q <= o) + 2
  IN CASE c = "nl" -> tok("nl", p + 1, TRUE, <<>>)
       [] c = "/" /\ Is(x, p + 1, {"/"}) -> tok("comment", lineEnd, Clean(x, p, lineEnd), <<>>)
       [] c = "/" /\ Is(x, p + 1, {"*"}) -> tok("comment", close, closes # {} /\ Clean(x, p, close), <<>>)
       [] c \in Letters -> tok("ident", Behind(x, p, Letters \cup Digits), TRUE, <<>>)
       [] c \in Decimals -> Number(x, p)
       [] c = "\"" -> LET q == Quoted(x, p + 1) IN tok("str", q.e, q.ok, q.v)
       [] c = "`" -> LET q == Raw(x, p + 1) IN tok("str", q.e, q.ok, q.v)
       [] OTHER -> tok(c, p + 1, c \in Range(Chars("{}()[]<>,:;=?.")), <<>>)

RECURSIVE From(_, _)
From(x, p) == IF p > Len(x) THEN <<>>
              ELSE IF x[p] \in Blanks THEN From(x, p + 1)
              ELSE LET t == Token(x, p) IN <<t>> \o From(x, t.e)
Tokens(x) == From(x, 1)
File(x) == IF x # <<>> /\ x[1] = "bom" THEN From(x, 2) ELSE From(x, 1)

\* the places where texts are tried, and whether they fit there:
\*   num    the number of an item           id     the name of a field
\*   str    between quotes                   raw    between backquotes
\*   com    before the end of a body         start  at the beginning of a file
\*   end    at the end of a file
One(ts, t) == Len(ts) = 1 /\ ts[1].t = t /\ ts[1].ok
Solid(ts) == SelectSeq(ts, LAMBDA t : t.t \notin {"nl", "comment"})
AllOk(ts) == \A i \in DOMAIN ts : ts[i].ok
At(c, x) == CASE c = "str" -> Tokens(<<"\"">> \o x \o <<"\"">>)
              [] c = "raw" -> Tokens(<<"`">> \o x \o <<"`">>)
              [] c = "com" -> Tokens(x \o <<"}">>)
              [] c = "start" -> File(x \o <<"d">>)
              [] OTHER -> Tokens(x)
Fits(c, x) ==
  LET ts == At(c, x)
  IN CASE c = "num" -> One(ts, "int")
       [] c = "id" -> One(ts, "ident")
       [] c \in {"str", "raw"} -> One(ts, "str")
       [] c = "end" -> AllOk(ts) /\ Solid(ts) = <<>>
       [] c = "com" -> AllOk(ts) /\ Len(Solid(ts)) = 1 /\ Solid(ts)[1].t = "}"
       [] OTHER -> AllOk(ts) /\ One(Solid(ts), "ident")
\* what a number or a text is, if it fits
Means(c, x) == IF Fits(c, x) /\ c \in {"num", "str", "raw"} THEN At(c, x)[1].v ELSE <<>>
=============================================================================
