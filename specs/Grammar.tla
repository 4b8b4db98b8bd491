------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* From the tokens of a schema file to its declarations.                   *)
(*                                                                         *)
(* A raw token is [t |-> class, v |-> text]; the classes are               *)
(*   "ident" "int" "str" "bad"  the words (an illegal character is "bad")  *)
(*   "nl"                       a line break                               *)
(*   and the keywords and punctuation characters themselves.               *)
(* Blanks and comments are not tokens; a comment that contains a line      *)
(* break is an "nl".                                                       *)
(*                                                                         *)
(* Lex inserts the ';' that ends a line.  ParseFile is the recogniser: it  *)
(* gives [ok |-> FALSE] for a text outside the language, and the parsed    *)
(* file otherwise.                                                         *)
(***************************************************************************)
EXTENDS Base

EndsLine == {"ident", "int", "str", ")", "]", "}", ">"}

\* a token and the number of the raw token that it is
Lexed(t, v, at) == [t |-> t, v |-> v, at |-> at]

\* pending: whether a line break here ends a line
RECURSIVE LexFrom(_, _, _)
LexFrom(raw, i, pending) ==
  IF i > Len(raw)
  THEN IF pending THEN <<Lexed(";", "nl", i), Lexed("eof", "", i)>>
       ELSE <<Lexed("eof", "", i)>>
  ELSE IF raw[i].t = "nl"
  THEN IF pending THEN <<Lexed(";", "nl", i)>> \o LexFrom(raw, i + 1, FALSE)
       ELSE LexFrom(raw, i + 1, FALSE)
  ELSE <<Lexed(raw[i].t, raw[i].v, i)>> \o LexFrom(raw, i + 1, raw[i].t \in EndsLine)

Lex(raw) == LexFrom(raw, 1, FALSE)

---------------------------------------------------------------------------
\* i: of a failure, the token that no text of the language has after those before it
No(i) == [ok |-> FALSE, i |-> i, v |-> <<>>]
Ok(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

At(tk, i, t) == tk[i].t = t
Tok(tk, i, t) == IF At(tk, i, t) THEN Ok(i + 1, tk[i].v) ELSE No(i)

\* the end of a clause: ';' (also from a line break); not needed before ')' or '}'
Semi(tk, i) == IF tk[i].t \in {")", "}"} THEN Ok(i, <<>>) ELSE Tok(tk, i, ";")

\* r1 and then the parser F from where it ended, combined by C
Then(r1, F(_), C(_, _)) ==
  IF ~r1.ok THEN No(r1.i)
  ELSE LET r2 == F(r1.i) IN IF ~r2.ok THEN No(r2.i) ELSE Ok(r2.i, C(r1.v, r2.v))

First(a, b) == a
Second(a, b) == b

\* a fixed sequence of token classes; the value is the sequence of texts
RECURSIVE Toks(_, _, _)
Toks(tk, i, ts) ==
  IF ts = <<>> THEN Ok(i, <<>>)
  ELSE IF ~At(tk, i, Head(ts)) THEN No(i)
  ELSE LET r == Toks(tk, i + 1, Tail(ts))
       IN IF r.ok THEN Ok(r.i, <<tk[i].v>> \o r.v) ELSE r

\* P repeated as long as Go holds of the next token
Loop(tk, i, Go(_), P(_, _)) ==
  LET RECURSIVE L(_)
      L(j) == IF ~Go(tk[j].t) THEN Ok(j, <<>>)
              ELSE LET r == P(tk, j)
                   IN IF ~r.ok THEN No(r.i)
                      ELSE LET rs == L(r.i)
                           IN IF ~rs.ok THEN rs ELSE Ok(rs.i, <<r.v>> \o rs.v)
  IN  L(i)

Until(tk, i, stop, P(_, _)) == Loop(tk, i, LAMBDA t : t \notin stop, P)
While(tk, i, start, P(_, _)) == Loop(tk, i, LAMBDA t : t \in start, P)

---------------------------------------------------------------------------
(* package name = "value"                                                  *)
Package(tk, i0) ==
  LET named == At(tk, i0 + 1, "ident")
      i == IF named THEN i0 + 2 ELSE i0 + 1
      r == Toks(tk, i, <<"=", "str">>)
  IN  Then(r, LAMBDA j : Semi(tk, j),
           LAMBDA a, b : [k |-> IF named THEN tk[i0 + 1].v ELSE "", v |-> a[2]])

Import(tk, i) == Then(Toks(tk, i, <<"import", "str">>), LAMBDA j : Semi(tk, j),
                      LAMBDA a, b : a[2])

---------------------------------------------------------------------------
(* [name: key="value","value"; key="value"]                                *)
RECURSIVE MoreValues(_, _)
MoreValues(tk, i) ==
  IF ~At(tk, i, ",") THEN Ok(i, <<>>)
  ELSE Then(Tok(tk, i + 1, "str"), LAMBDA j : MoreValues(tk, j), LAMBDA a, b : <<a>> \o b)

KeyValue(tk, i) ==
  LET r == Then(Toks(tk, i, <<"ident", "=", "str">>), LAMBDA j : MoreValues(tk, j),
                LAMBDA a, b : [k |-> a[1], v |-> <<a[3]>> \o b])
  IN  IF r.ok /\ At(tk, r.i, ";") THEN Ok(r.i + 1, r.v) ELSE r

Tag(tk, i) ==
  LET head == Toks(tk, i, <<"[", "ident", ":">>)
      kvs  == Then(head, LAMBDA j : Until(tk, j, {"]", "eof"}, KeyValue),
                   LAMBDA a, b : [name |-> a[2], kvs |-> b])
      end  == Then(kvs, LAMBDA j : Tok(tk, j, "]"), First)
  IN  Then(end, LAMBDA j : Semi(tk, j), First)

Tags(tk, i) == While(tk, i, {"["}, Tag)

---------------------------------------------------------------------------
(* Types: name?  name?[]?  name?<key>?                                     *)
Opt(tk, i) == IF At(tk, i, "?") THEN Ok(i + 1, TRUE) ELSE Ok(i, FALSE)

NameOpt(tk, i) == Then(Tok(tk, i, "ident"), LAMBDA j : Opt(tk, j),
                       LAMBDA a, b : [of |-> a, opt |-> b])

RECURSIVE Type(_, _)
Type(tk, i) ==
  LET e == NameOpt(tk, i)
  IN  IF ~e.ok THEN No(e.i)
      ELSE IF At(tk, e.i, "[")
      THEN Then(Toks(tk, e.i, <<"[", "]">>), LAMBDA j : Opt(tk, j),
                LAMBDA a, b : [shape |-> "list", of |-> e.v.of, opt |-> e.v.opt, copt |-> b,
                               key |-> "", kopt |-> FALSE])
      ELSE IF At(tk, e.i, "<")
      THEN LET k == Type(tk, e.i + 1)
               g == Then(k, LAMBDA j : Tok(tk, j, ">"), First)
           IN  Then(g, LAMBDA j : Opt(tk, j),
                    LAMBDA a, b : [shape |-> "map", of |-> e.v.of, opt |-> e.v.opt, copt |-> b,
                                   \* a key that is itself a list or map is no type name
                                   key |-> IF a.shape = "one" THEN a.of ELSE "<>", kopt |-> a.opt /\ a.shape = "one"])
      ELSE Ok(e.i, [shape |-> "one", of |-> e.v.of, opt |-> e.v.opt, copt |-> FALSE,
                    key |-> "", kopt |-> FALSE])

---------------------------------------------------------------------------
(* Declarations                                                            *)
Decl0(kind, name) ==
  [kind |-> kind, name |-> name, tags |-> <<>>, bases |-> <<>>, fields |-> <<>>,
   items |-> <<>>, methods |-> <<>>]

Field(tk, i) ==
  LET tags == Tags(tk, i)
      typ  == Then(tags, LAMBDA j : Type(tk, j), LAMBDA a, b : <<a, b>>)
      name == Then(typ, LAMBDA j : Toks(tk, j, <<"ident", "=", "int">>),
                   LAMBDA a, b : [tags |-> a[1], type |-> a[2], name |-> b[1], id |-> b[3]])
      note == IF name.ok /\ At(tk, name.i, "str") THEN Ok(name.i + 1, name.v) ELSE name
  IN  Then(note, LAMBDA j : Semi(tk, j), First)

Item(tk, i) ==
  LET r == Then(Tags(tk, i), LAMBDA j : Toks(tk, j, <<"ident", "=", "int">>),
                LAMBDA a, b : [tags |-> a, name |-> b[1], id |-> b[3]])
  IN  Then(r, LAMBDA j : Semi(tk, j), First)

\* a method takes and gives a single value, not a list or map
Single(tk, i) ==
  LET r == NameOpt(tk, i)
  IN  IF r.ok THEN Ok(r.i, [shape |-> "one", of |-> r.v.of, opt |-> r.v.opt]) ELSE No(r.i)

Method(tk, i) ==
  LET a == Then(Tags(tk, i), LAMBDA j : Single(tk, j), LAMBDA x, y : <<x, y>>)
      b == Then(a, LAMBDA j : Toks(tk, j, <<"ident", "(">>), LAMBDA x, y : x \o <<y[1]>>)
      c == Then(b, LAMBDA j : Single(tk, j), LAMBDA x, y : x \o <<y>>)
      d == Then(c, LAMBDA j : Toks(tk, j, <<"ident", ")", "=", "int">>),
                LAMBDA x, y : [tags |-> x[1], res |-> x[2].of, resopt |-> x[2].opt, name |-> x[3],
                               par |-> x[4].of, paropt |-> x[4].opt, pname |-> y[1], id |-> y[4]])
  IN  Then(d, LAMBDA j : Semi(tk, j), First)

\* ": Base = 1, Base = 2"
Base1(tk, i) == Toks(tk, i + 1, <<"ident", "=", "int">>)
Bases(tk, i) ==
  IF ~At(tk, i, ":") THEN Ok(i, <<>>)
  ELSE LET r == While(tk, i, {":", ","}, Base1)
       IN  IF r.ok THEN Ok(r.i, Map(r.v, LAMBDA b : b[1])) ELSE r

\* the closing '}', an optional '=', the end of the line
Close(tk, i) ==
  LET r == Tok(tk, i, "}")
      e == IF r.ok /\ At(tk, r.i, "=") THEN Ok(r.i + 1, r.v) ELSE r
  IN  Then(e, LAMBDA j : Semi(tk, j), First)

Body(tk, i, P(_, _)) ==
  LET o == Tok(tk, i, "{")
      b == Then(o, LAMBDA j : Until(tk, j, {"}", "eof"}, P), Second)
  IN  Then(b, LAMBDA j : Close(tk, j), First)

Decl(tk, i0) ==
  LET tags == Tags(tk, i0)
      i    == tags.i
      kind == tk[i].t
      name == Tok(tk, i + 1, "ident")
      base == Then(name, LAMBDA j : IF kind = "enum" THEN Ok(j, <<>>) ELSE Bases(tk, j),
                   LAMBDA a, b : [Decl0(kind, a) EXCEPT !.bases = b, !.tags = tags.v])
  IN  IF ~tags.ok THEN tags
      ELSE IF kind \notin {"data", "enum", "server"} THEN No(i)
      ELSE CASE kind = "data"   -> Then(base, LAMBDA j : Body(tk, j, Field),
                                        LAMBDA a, b : [a EXCEPT !.fields = b])
             [] kind = "enum"   -> Then(base, LAMBDA j : Body(tk, j, Item),
                                        LAMBDA a, b : [a EXCEPT !.items = b])
             [] kind = "server" -> Then(base, LAMBDA j : Body(tk, j, Method),
                                        LAMBDA a, b : [a EXCEPT !.methods = b])

---------------------------------------------------------------------------
ParseToks(tk) ==
  LET p == While(tk, 1, {"package"}, Package)
      m == Then(p, LAMBDA j : While(tk, j, {"import"}, Import), LAMBDA a, b : <<a, b>>)
  IN  Then(m, LAMBDA j : Until(tk, j, {"eof"}, Decl),
           LAMBDA a, b : [pkgs |-> a[1], imports |-> a[2], decls |-> b])

\* stop: the raw token (or the end, after the last) at which a text leaves the language
ParseFile(raw) ==
  LET tk == Lex(raw)
      r  == ParseToks(tk)
  IN  [ok |-> r.ok, v |-> r.v, stop |-> IF r.ok THEN 0 ELSE tk[r.i].at]
=============================================================================
