------------------------------- MODULE MC_Scan -------------------------------
(***************************************************************************)
(* Texts that grow by one piece after the other, for every place.  Every    *)
(* one is given to the conformance driver.                                  *)
(***************************************************************************)
EXTENDS Scan

CONSTANTS Num, Str, RawN, Com, Id, Start     \* how many pieces

Singles(s) == {<<c>> : c \in Range(Chars(s))}
Pieces == [num |-> Singles("018_xXobaFg."),
           str |-> Singles("a\\\"n048`'") \cup {<<"nl">>, <<"cr">>, <<"E1">>, <<"nul">>, <<"\\", "x", "4">>, <<"\\", "1">>, <<"\\", "u", "0", "0">>, <<"\\", "u", "D">>,
                    <<"\\", "U", "0", "0", "1", "0">>, <<"F", "F", "F", "F">>, <<"7", "F">>, <<"\\", "3", "7">>, <<"\\", "4", "0">>},
           raw |-> Singles("a`\\\"") \cup {<<"nl">>, <<"cr">>, <<"E1">>, <<"nul">>, <<"bom">>},
           com |-> Singles("/* x\"`") \cup {<<"nl">>, <<"cr">>},
           end |-> Singles("/* x\"`}") \cup {<<"nl">>, <<"cr">>, <<"nul">>, <<"bom">>},
           id |-> Singles("aZ_0-$ ") \cup {<<"E1">>, <<"C1">>, <<"D1">>, <<"S1">>, <<"bom">>},
           start |-> Singles(" /*") \cup {<<"bom">>, <<"nl">>, <<"cr">>, <<"tab">>, <<"nul">>, <<"bad">>}]
Most == [num |-> Num, str |-> Str, raw |-> RawN, com |-> Com, id |-> Id, start |-> Start, end |-> Start]

VARIABLES place, text, left
vars == <<place, text, left>>
Init == place \in DOMAIN Pieces /\ text = <<>> /\ left = Most[place]
Next == left > 0 /\ left' = left - 1 /\ UNCHANGED place /\ \E g \in Pieces[place] : text' = text \o g
Spec == Init /\ [][Next]_vars
View == <<place, text>>

Toks == At(place, text)
\* the words and the blanks between them are the text
Tiling == LET x == IF place \in {"str", "raw", "com", "start"} THEN Len(text) + (IF place \in {"str", "raw"} THEN 2 ELSE 1) ELSE Len(text)
          IN /\ \A i \in DOMAIN Toks : Toks[i].p < Toks[i].e /\ Toks[i].e <= x + 1
             /\ \A i \in 1..(Len(Toks) - 1) : Toks[i].e <= Toks[i + 1].p
Without(x, c) == SelectSeq(x, LAMBDA y : y # c)
\* a _ in a number changes nothing
Apart == place = "num" /\ Fits("num", text) => Means("num", Without(text, "_")) = Means("num", text)
\* in whatever way a number is written, it is a number that can be written with digits only
Decimal == place = "num" /\ Fits("num", text) /\ Means("num", text) # <<Unknown>> =>
             Means("num", Chars(ToString(Means("num", text)[1]))) = Means("num", text)
\* quotes and backquotes agree on texts without anything special
SameText == place = "str" /\ {"\\", "cr", "`", "\""} \cap Range(text) = {} =>
              (Fits("str", text) => Fits("raw", text) /\ Means("raw", text) = Means("str", text))
\* carriage returns are nothing in a raw text, nor where a comment may be
Returns == place = "raw" /\ Fits("raw", text) => Means("raw", Without(text, "cr")) = Means("raw", text)
\* what may stand at the beginning of a file may stand after any line end, but for the byte order mark
Begins == place = "start" /\ Fits("start", text) =>
            Fits("com", <<"nl">> \o (IF text # <<>> /\ text[1] = "bom" THEN Tail(text) ELSE text))
\* what may end a file may stand before the end of a body, unless that would be in the comment
Ends == place = "end" /\ Fits("end", text) => Fits("com", text \o <<"nl">>)
\* two comments are one more comment
Twice == place = "com" /\ Fits("com", text) => Fits("com", text \o <<"nl">> \o text)
Told == Emit([place |-> place, text |-> text])
=============================================================================
