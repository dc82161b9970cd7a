------------------------------ MODULE Combine ------------------------------
(***************************************************************************)
(* The meaning of combine's parsers: what one call of a parser on a stream  *)
(* returns, as a function of the grammar term, the input and whether the    *)
(* input is complete or may still grow (partial).                           *)
(*                                                                          *)
(* A grammar term g is a record; g.k is the parser, g.ps its children and   *)
(* c, s, t, n, m its other arguments; g.st says that the parser is built    *)
(* into its parent with its concrete type instead of as a trait object.  A  *)
(* context c holds the input c.i (a sequence of one-character strings), c.P *)
(* (partial) and c.b (bytes).  Positions are 1 .. Len(c.i)+1.               *)
(*                                                                          *)
(* A result is [r, v, p, e]: r = "CO" / "PO" is success after / without     *)
(* committing to consumed input, "CE" / "PE" the corresponding failures; v  *)
(* is the value, flattened to a sequence of strings; p the position reached *)
(* by a success; e the error of a failure: its position e.p, its set of     *)
(* items e.s and the tracked offset e.o which tells a sequence how many of  *)
(* its parsers the error may still be attributed to.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Regex

Sat(a, b) == IF a > b THEN a - b ELSE 0                  \* saturating subtraction
Cap(n) == IF n > 255 THEN 255 ELSE n                     \* offsets are bytes
RangeOf(s) == {s[x] : x \in 1..Len(s)}

EOI == <<"U", "s", "end of input">>
UTok(t) == <<"U", "t", t>>
ETok(t) == <<"E", "t", t>>
ELab(t) == <<"E", "s", t>>
Msg(t) == <<"M", "s", t>>

Empty(p) == [p |-> p, s |-> {}, o |-> 1]
ErrAt(p, x) == [p |-> p, s |-> {x}, o |-> 1]
Add(e, x) == [e EXCEPT !.s = @ \cup {x}]
IsEoi(e) == EOI \in e.s
\* Of two errors the one further into the input survives; at one position they are joined.
Merge(a, b) == IF a.p > b.p THEN a ELSE IF a.p < b.p THEN b ELSE [a EXCEPT !.s = @ \cup b.s]

NoE == [p |-> 0, s |-> {}, o |-> 0]
CO(v, p) == [r |-> "CO", v |-> v, p |-> p, e |-> NoE]
PO(v, p) == [r |-> "PO", v |-> v, p |-> p, e |-> NoE]
CE(e) == [r |-> "CE", v |-> <<>>, p |-> 0, e |-> e]
PE(e) == [r |-> "PE", v |-> <<>>, p |-> 0, e |-> e]
OkR(com, v, p) == IF com THEN CO(v, p) ELSE PO(v, p)
ErR(com, e) == IF com THEN CE(e) ELSE PE([e EXCEPT !.o = 1])  \* a fresh Tracked
IsOk(x) == x.r \in {"CO", "PO"}
IsCommit(x) == x.r \in {"CO", "CE"}
\* success of a later part of a parser of which an earlier part has (com) or has not committed
CommitIf(com, x) ==
  IF ~com THEN x
  ELSE CASE x.r = "PO" -> CO(x.v, x.p) [] x.r = "PE" -> CE(x.e) [] OTHER -> x

\* ---- the stream
N(c) == Len(c.i)
AtEnd(c, p) == p > N(c)
\* a missing token: more input may still come if the input is partial
Missing(c, e) == IF c.P THEN CE(e) ELSE PE(e)
Uncons(c, p) == IF AtEnd(c, p) THEN Missing(c, ErrAt(p, EOI)) ELSE CO(<<c.i[p]>>, p + 1)

\* ---- widths: `E`, `K`, `G` stand for 2, 3 and 4 byte characters in string input
Width(t) == CASE t = "E" -> 2 [] t = "K" -> 3 [] t = "G" -> 4 [] OTHER -> 1
RECURSIVE WidthS(_, _, _)
WidthS(s, a, b) == IF a > b THEN 0 ELSE Width(s[a]) + WidthS(s, a + 1, b)
\* in byte input they stand for the bytes E9, FF and 80
WidthIn(c, t) == IF c.b THEN 1 ELSE Width(t)
LenIn(c, s) == IF c.b THEN Len(s) ELSE WidthS(s, 1, Len(s))
\* the position n width units after p: [k |-> "ok", p], "eoi" or "mid" (inside a character)
RECURSIVE Skip(_, _, _)
Skip(c, p, n) ==
  IF n = 0 THEN [k |-> "ok", p |-> p]
  ELSE IF AtEnd(c, p) THEN [k |-> "eoi", p |-> p]
  ELSE IF WidthIn(c, c.i[p]) > n THEN [k |-> "mid", p |-> p]
  ELSE Skip(c, p + 1, n - WidthIn(c, c.i[p]))
CharBoundary == <<"U", "s", "unexpected slice on character boundary">>
Sub(c, a, b) == SubSeq(c.i, a, b - 1)
List(v) == <<"[[">> \o v \o <<"]]">>
Tup(v) == <<"((">> \o v \o <<"))">>

\* ---- character classes on ASCII; of the stand-ins E is a lowercase letter, K and G are symbols
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Lowers == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Uppers == {"A","B","C","D","F","H","I","J","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
LowStr == <<"a","b","c","d","f","h","i","j","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UppStr == <<"A","B","C","D","F","H","I","J","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower(t) == IF \E x \in 1..23 : UppStr[x] = t THEN LowStr[CHOOSE x \in 1..23 : UppStr[x] = t] ELSE t
ClassHas(c, k, t) ==
  CASE c.b /\ t \in {"E", "K", "G"} -> FALSE
    [] k = "digit" -> t \in Digits
    [] k = "letter" -> t \in Lowers \cup Uppers \cup {"E"}
    [] k = "alpha_num" -> t \in Lowers \cup Uppers \cup Digits \cup {"E"}
    [] k = "upper" -> t \in Uppers
    [] k = "lower" -> t \in Lowers \cup {"E"}
    [] k \in {"space", "spaces"} -> t \in {" ", "\t", "\n", "\r", "\f"}
    [] k = "newline" -> t = "\n"
    [] k = "tab" -> t = "\t"
    [] k = "hex_digit" -> t \in Digits \cup {"a","b","c","d","e","f","A","B","C","D","F"}
    [] k = "oct_digit" -> t \in Digits \ {"8", "9"}
\* the labels of `parser::char`; those of `parser::byte` are partly the names of the functions
ClassLabel(c, k) ==
  CASE k = "digit" -> "digit"
    [] k = "letter" -> "letter"
    [] k = "alpha_num" -> IF c.b THEN "alpha_num" ELSE "letter or digit"
    [] k = "upper" -> IF c.b THEN "upper" ELSE "uppercase letter"
    [] k = "lower" -> IF c.b THEN "lower" ELSE "lowercase letter"
    [] k = "space" -> IF c.b THEN "space" ELSE "whitespace"
    [] k = "spaces" -> "whitespaces"
    [] k = "newline" -> "lf newline"
    [] k = "crlf" -> "crlf newline"
    [] k = "tab" -> "tab"
    [] k = "hex_digit" -> IF c.b THEN "hex_digit" ELSE "hexadecimal digit"
    [] k = "oct_digit" -> "octal digit"

\* ---- static facts about terms
RECURSIVE Count(_)
RECURSIVE CountAll(_, _)
CountAll(ps, x) == IF x > Len(ps) THEN 0 ELSE Count(ps[x]) + CountAll(ps, x + 1)
\* how many parsers of a sequence the term stands for
Count(g) ==
  CASE g.k \in {"seq1", "seq2", "seq3", "seq4", "tup", "struct3", "and", "with", "skip"} -> Cap(CountAll(g.ps, 1))
    [] g.k \in {"attempt", "look_ahead", "nfb", "map", "map_input", "and_then", "fromstr", "flat_map", "expected", "message",
                "silent", "no_partial", "aps", "asps", "assps", "boxed", "optional", "many", "many1", "sep_by",
                "sep_by1", "spanned", "byref"} -> Count(g.ps[1])
    [] g.k = "class" /\ g.t = "crlf" -> 2
    [] OTHER -> 1

Kids(g) == IF "ps" \in DOMAIN g THEN g.ps ELSE <<>>
Chars(g) == IF "s" \in DOMAIN g THEN g.s ELSE <<>>
Has(g, t) == \E x \in 1..Len(g.s) : g.s[x] = t
RECURSIVE Contains(_, _)
Contains(v, t) == \E x \in 1..Len(v) : v[x] = t

\* ---- what a parser adds to an error that it did not itself position
RECURSIVE AddErr(_, _, _)
RECURSIVE AddAll(_, _, _, _)
RECURSIVE AddSeq(_, _, _, _)
RECURSIVE CommExp(_, _, _)
\* each alternative in turn, with its offset set to one
AddAll(ps, c, e, x) == IF x > Len(ps) THEN e ELSE AddAll(ps, c, AddErr(ps[x], c, [e EXCEPT !.o = 1]), x + 1)
AddSeq(ps, c, e, x) ==
  LET n == Len(ps)
      prev == e.o
      e1 == AddErr(ps[x], c, e)
      dec == (x = 1 \/ x # n) /\ e1.o = prev
      e2 == IF dec THEN [e1 EXCEPT !.o = Sat(@, Count(ps[x]))] ELSE e1
  IN IF e1.o <= 1 THEN [e1 EXCEPT !.o = Sat(@, 1)]
     ELSE IF x = n THEN e2 ELSE AddSeq(ps, c, e2, x + 1)
SetExpected(e, e1, x) == [e1 EXCEPT !.s = e.s \cup {y \in e1.s : y[1] # "E"} \cup {x}]
AddChoice(ps, c, e) ==
  LET e1 == IF e.o # 0 THEN AddAll(ps, c, e, 1) ELSE e
  IN [e1 EXCEPT !.o = Sat(e.o, 1)]
AddErr(g, c, e) ==
  CASE g.k = "tok" -> Add(e, ETok(g.c))
    [] g.k = "oneof" -> [e EXCEPT !.s = @ \cup {ETok(g.s[x]) : x \in 1..Len(g.s)}]
    [] g.k = "class" /\ g.t = "crlf" ->
         SetExpected(e, AddSeq(<<[k |-> "sat", s |-> <<"\r">>], [k |-> "class", t |-> "newline"]>>, c, e, 1),
                     ELab(ClassLabel(c, g.t)))
    [] g.k = "class" -> Add(e, ELab(ClassLabel(c, g.t)))
    [] g.k \in {"str", "strcmp"} ->
         IF c.b /\ g.k = "strcmp" THEN e ELSE Add(e, ELab(g.t))
    [] g.k \in {"bytes", "bytescmp"} -> Add(e, <<"E", "r", g.t>>)
    [] g.k \in {"rx_match", "rx_find", "rx_find_many", "rx_captures", "rx_captures_many"} -> Add(e, ELab(g.t))
    [] g.k = "toks" -> Add(e, ELab(g.t))
    [] g.k = "eof" -> Add(e, ELab("end of input"))
    [] g.k = "unexpected" -> Add(e, <<"U", "s", g.t>>)
    [] g.k = "range" -> Add(e, <<"E", "r", g.t>>)
    [] g.k \in {"seq1", "seq2", "seq3", "seq4", "tup", "struct3", "and", "with", "skip"} -> AddSeq(g.ps, c, e, 1)
    [] g.k = "between" -> AddSeq(<<g.ps[1], g.ps[3], g.ps[2]>>, c, e, 1)
    [] g.k \in {"or", "choicem"} ->
         IF e.o = 0 THEN e
         ELSE IF g.k = "or" \/ Len(g.ps) = 2 THEN AddChoice(g.ps, c, e)
         ELSE AddChoice(<<g.ps[1], [k |-> "choicem", ps |-> Tail(g.ps)]>>, c, e)
    [] g.k \in {"choice2", "choice3", "choice4", "chs", "arr", "arr2", "arr3", "slice"} -> AddChoice(Kids(g), c, e)
    [] g.k = "expected" -> SetExpected(e, AddErr(g.ps[1], c, e), ELab(g.t))
    [] g.k = "message" -> Add(AddErr(g.ps[1], c, e), Msg(g.t))
    [] g.k = "escaped" -> Add(AddErr(g.ps[1], c, e), ETok(g.c))
    [] g.k \in {"then", "then_partial", "then_ref", "dispatch", "optional", "attempt", "look_ahead", "map",
                "map_input", "and_then", "fromstr", "flat_map", "recognize", "rrec", "rrecv", "count", "cmm", "many", "many1",
                "skip_many", "skip_many1", "sep_by", "sep_by1", "sep_end_by", "sep_end_by1", "chainl1", "chainr1",
                "lazy", "factory", "opaque", "no_partial", "aps", "asps", "assps", "boxed", "left", "right",
                "spanned", "byref", "pmacro", "length_prefix"} -> AddErr(g.ps[1], c, e)
    \* `skip_count(p) = count(p).with(value(()))`
    [] g.k \in {"skip_count", "skip_cmm"} ->
         AddSeq(<<[k |-> "count", ps |-> g.ps], [k |-> "value"]>>, c, e, 1)
    [] g.k \in {"skip_until", "repeat_skip_until"} ->
         AddSeq(<<[k |-> "take_until", ps |-> g.ps], [k |-> "value"]>>, c, e, 1)
    [] OTHER -> e

\* what a parser adds to an error found right behind input that it consumed
CommExp(g, c, e) ==
  CASE g.k \in {"seq1", "seq2", "seq3", "seq4", "tup", "struct3", "and", "with", "skip"} -> CommExp(g.ps[Len(g.ps)], c, e)
    [] g.k = "between" -> CommExp(g.ps[2], c, e)
    [] g.k \in {"attempt", "look_ahead", "map", "map_input", "and_then", "fromstr", "flat_map", "expected", "message",
                "lazy", "factory", "opaque", "no_partial", "aps", "asps", "assps", "boxed", "spanned", "byref",
                "pmacro"} -> CommExp(g.ps[1], c, e)
    [] g.k \in {"many", "many1", "skip_many", "skip_many1"} -> AddErr(g.ps[1], c, e)
    [] g.k = "class" /\ g.t = "spaces" -> AddErr([k |-> "class", t |-> "space"], c, e)
    [] g.k \in {"sep_by", "sep_by1"} -> AddErr(g.ps[2], c, e)
    [] OTHER -> e

\* ---- parsing
RECURSIVE Parse(_, _, _)      \* as a part of another parser: errors that did not commit are bare
RECURSIVE Full(_, _, _)       \* as a parser on its own: errors tell what was found and expected
RECURSIVE Comm(_, _, _)       \* the same, as called by `attempt`, `then` and `escaped`

\* adds what was found at p and what g expected to an error that did not commit
WithErrors(g, c, p, x) ==
  IF x.r # "PE" THEN x
  ELSE PE(AddErr(g, c, Add(x.e, IF AtEnd(c, p) THEN EOI ELSE UTok(c.i[p]))))
Static(g) == "st" \in DOMAIN g /\ g.st
Full(g, c, p) ==
  CASE Static(g) /\ g.k = "attempt" -> Parse(g, c, p)
    [] Static(g) /\ g.k \in {"lazy", "opaque"} -> Full(g.ps[1], c, p)
    [] OTHER -> WithErrors(g, c, p, Parse(g, c, p))
\* called with a partial state: every parser adds its errors
FullP(g, c, p) == WithErrors(g, c, p, Parse(g, c, p))
Comm(g, c, p) ==
  CASE Static(g) /\ g.k = "attempt" -> Parse(g, c, p)
    [] Static(g) /\ g.k = "lazy" -> Comm(g.ps[1], c, p)
    [] OTHER -> WithErrors(g, c, p, Parse(g, c, p))

\* -- sequences
RECURSIVE SeqGo(_, _, _, _, _, _, _)
RECURSIVE SeqErrs(_, _, _, _, _, _)
SeqErrs(ps, c, e, first, inner, i) ==
  IF i >= Len(ps) THEN e
  ELSE
    LET e0 == IF i + 1 = first THEN CommExp(ps[i + 1], c, e) ELSE e
        e1 == IF i >= first
              THEN AddErr(ps[i + 1], c, IF e0.o <= 1 THEN [e0 EXCEPT !.o = inner] ELSE e0)
              ELSE e0
    IN IF i >= first /\ e1.o <= 1 THEN e1
       ELSE SeqErrs(ps, c, [e1 EXCEPT !.o = Sat(@, Count(ps[i + 1]))], first, inner, i + 1)
\* x: index of the next parser, vs: the values so far, first: 1 + index of the last parser
\* that committed (0 if none did), off: 1 + the number of parsers before x
SeqGo(ps, c, p, x, vs, first, off) ==
  IF x > Len(ps) THEN OkR(first # 0, vs, p)
  ELSE
    LET y == Parse(ps[x], c, p)
        nfirst == IF y.r = "CO" THEN x ELSE first
    IN CASE IsOk(y) -> SeqGo(ps, c, y.p, x + 1, Append(vs, y.v), nfirst, Cap(off + Count(ps[x])))
         [] y.r = "CE" -> y
         [] OTHER ->
              IF x = 1 THEN y
              ELSE IF first = 0 THEN PE([y.e EXCEPT !.o = off])
              ELSE LET e0 == [y.e EXCEPT !.o = off]
                       e1 == IF AtEnd(c, p) THEN e0 ELSE Add(e0, UTok(c.i[p]))
                   IN CE(SeqErrs(ps, c, e1, first, y.e.o, 0))
SeqR(ps, c, p) == SeqGo(ps, c, p, 1, <<>>, 0, 1)
RECURSIVE Flat(_)
Flat(vs) == IF vs = <<>> THEN <<>> ELSE Head(vs) \o Flat(Tail(vs))
\* changes the value of a success
MapV(x, v) == IF IsOk(x) THEN [x EXCEPT !.v = v] ELSE x

\* -- choices
RECURSIVE ChoiceGo(_, _, _, _, _)
RECURSIVE MergeAll(_, _)
RECURSIVE ChoiceErrs(_, _, _, _, _)
MergeAll(es, x) == IF x = Len(es) THEN es[x] ELSE Merge(es[x], MergeAll(es, x + 1))
ChoiceErrs(ps, c, es, e, x) ==
  IF x > Len(ps) THEN e
  ELSE ChoiceErrs(ps, c, es,
         IF es[x].o # 1 THEN [AddErr(ps[x], c, [e EXCEPT !.o = es[x].o]) EXCEPT !.o = 0] ELSE e, x + 1)
ChoiceGo(ps, c, p, x, es) ==
  IF x > Len(ps)
  THEN PE(ChoiceErrs(ps, c, es, [MergeAll(es, 1) EXCEPT !.o = 1], 1))
  ELSE LET y == Parse(ps[x], c, p)
       IN IF y.r = "PE" THEN ChoiceGo(ps, c, p, x + 1, Append(es, y.e)) ELSE y
\* slices and arrays: `last` is the first parser which has not yet added its errors
RECURSIVE SliceGo(_, _, _, _, _, _)
RECURSIVE AddOnes(_, _, _, _, _)
AddOnes(ps, c, e, a, b) == \* parsers a .. b (1-based), each with its offset set to one
  IF a > b THEN e ELSE AddOnes(ps, c, AddErr(ps[a], c, [e EXCEPT !.o = 1]), a + 1, b)
SliceAdd(ps, c, e, last, i) == \* parsers last+1 .. i, the last of them with the error's own offset
  AddErr(ps[i], c, [AddOnes(ps, c, e, last + 1, i - 1) EXCEPT !.o = e.o])
SliceGo(ps, c, p, x, prev, last) ==
  IF x > Len(ps)
  THEN IF prev = NoE THEN PE(ErrAt(p, Msg("parser choice is empty")))
       ELSE PE(IF prev.o # 1 THEN [SliceAdd(ps, c, prev, last, Len(ps)) EXCEPT !.o = 0] ELSE prev)
  ELSE LET y == Parse(ps[x], c, p)
           add == prev.o # 1
           prev1 == IF add THEN SliceAdd(ps, c, prev, last, x - 1) ELSE prev
       IN IF y.r # "PE" THEN y
          ELSE IF prev = NoE THEN SliceGo(ps, c, p, x + 1, y.e, last)
          ELSE SliceGo(ps, c, p, x + 1, [Merge(prev1, y.e) EXCEPT !.o = y.e.o], IF add THEN x - 1 ELSE last)

\* -- repetition.  Iterating a parser ends at the first failure: its results are
\* [vs, p, com, end, e] where end is "CE", "PE" or "max".
RECURSIVE IterGo(_, _, _, _, _, _)
IterGo(q, c, p, left, vs, com) ==
  IF left = 0 THEN [vs |-> vs, p |-> p, com |-> com, end |-> "max", e |-> NoE]
  ELSE LET y == Parse(q, c, p)
       IN IF IsOk(y) THEN IterGo(q, c, y.p, left - 1, Append(vs, y.v), com \/ y.r = "CO")
          ELSE [vs |-> vs, p |-> p, com |-> com, end |-> y.r, e |-> y.e]
Forever == 1000
IterR(it, v) == IF it.end = "CE" THEN CE(it.e) ELSE OkR(it.com, v, it.p)
ManyR(q, c, p) == LET it == IterGo(q, c, p, Forever, <<>>, FALSE) IN IterR(it, List(Flat(it.vs)))
Many1R(q, c, p) ==
  LET y == Parse(q, c, p)
  IN IF ~IsOk(y) THEN y
     ELSE LET it == IterGo(q, c, y.p, Forever, <<y.v>>, y.r = "CO") IN IterR(it, List(Flat(it.vs)))
CountR(q, c, p, min, max) ==
  LET it == IterGo(q, c, p, max, <<>>, FALSE)
      n == Len(it.vs)
      m == Msg("expected " \o ToString(min - n) \o " more elements")
  IN IF n >= min THEN IterR(it, List(Flat(it.vs)))
     ELSE CASE it.end = "CE" -> CE(Add(it.e, m))
            [] it.end = "PE" -> ErR(it.com, Merge(it.e, ErrAt(it.p, m)))
            [] OTHER -> ErR(it.com, ErrAt(it.p, m))
With(s, q) == [k |-> "with", ps |-> <<s, q>>]
Opt(q) == [k |-> "optional", ps |-> <<q>>]
Sep1R(q, s, c, p) ==
  LET y == Parse(q, c, p)
  IN IF ~IsOk(y) THEN y
     ELSE LET it == IterGo(With(s, q), c, y.p, Forever, <<y.v>>, y.r = "CO")
          IN IterR(it, List(Flat(it.vs)))
\* elements, each after a separator, until one is missing; a separator may come last
RECURSIVE SepEndGo(_, _, _, _, _)
SepEndGo(q, c, p, vs, com) ==
  LET y == Parse(q, c, p)
      com1 == com \/ y.r = "CO"
  IN CASE y.r = "CE" -> y
       [] y.r = "PE" -> OkR(com, List(Flat(vs)), p)
       [] OTHER -> IF y.v = <<"None">> THEN OkR(com1, List(Flat(vs)), y.p)
                   ELSE SepEndGo(q, c, y.p, Append(vs, Tail(y.v)), com1)
SepEnd1R(q, s, c, p) ==
  LET y == Parse(q, c, p)
  IN IF ~IsOk(y) THEN y
     ELSE SepEndGo(With(s, Opt(q)), c, y.p, <<y.v>>, y.r = "CO")
OrEmpty(x, p) == IF x.r = "PE" THEN PO(List(<<>>), p) ELSE x
Bin(l, o, r) == <<"<<">> \o l \o o \o r \o <<">>">>
RECURSIVE ChainlGo(_, _, _, _, _, _)
ChainlGo(q, o, c, p, l, com) ==
  LET y == SeqR(<<o, q>>, c, p)
  IN CASE y.r = "CE" -> y
       [] y.r = "PE" -> OkR(com, l, p)
       [] OTHER -> ChainlGo(q, o, c, y.p, Bin(l, y.v[1], y.v[2]), com \/ y.r = "CO")
RECURSIVE ChainrGo(_, _, _, _, _)
ChainrGo(g, c, p, l, com) ==
  LET o == Parse(g.ps[2], c, p)
      y == Full(g, c, o.p)
  IN CASE o.r = "CE" -> o
       [] o.r = "PE" -> OkR(com, l, p)
       [] y.r = "CE" -> y
       [] y.r = "PE" -> IF o.r = "CO" THEN CE(y.e) ELSE OkR(com, l, p)
       [] OTHER -> ChainrGo(g, c, y.p, Bin(l, o.v, y.v), com \/ o.r = "CO" \/ y.r = "CO")
\* tokens up to the place where `end` succeeds
RECURSIVE TakeUntilGo(_, _, _, _, _)
TakeUntilGo(end, c, p, vs, com) ==
  LET y == Parse(end, c, p)
  IN CASE IsOk(y) -> OkR(com \/ y.r = "CO", List(vs), p)
       [] y.r = "CE" -> y
       [] OTHER -> LET u == Uncons(c, p)
                   IN IF u.r = "CO" THEN TakeUntilGo(end, c, u.p, vs \o u.v, TRUE)
                      ELSE IF u.r = "PE" /\ com THEN CE(u.e) ELSE u
RECURSIVE RepeatUntilGo(_, _, _, _, _, _)
RepeatUntilGo(q, end, c, p, vs, com) ==
  LET y == Parse(end, c, p)
      z == IF com THEN Comm(q, c, p) ELSE Parse(q, c, p)
  IN CASE IsOk(y) -> OkR(com \/ y.r = "CO", List(vs), p)
       [] y.r = "CE" -> y
       [] IsOk(z) -> RepeatUntilGo(q, end, c, z.p, vs \o z.v, com \/ z.r = "CO")
       [] z.r = "PE" /\ com -> CE(z.e)
       [] OTHER -> z
RECURSIVE EscapedGo(_, _, _, _)
EscapedGo(g, c, p, com) ==
  LET y == Parse(g.ps[1], c, p)
      u == Uncons(c, p)
      z == Comm(g.ps[2], c, p + 1)
  IN CASE IsOk(y) -> EscapedGo(g, c, y.p, com \/ y.r = "CO")
       [] y.r = "CE" -> y
       [] u.r = "CE" -> u
       [] u.r = "CO" /\ u.v[1] = g.c ->
            IF IsOk(z) THEN EscapedGo(g, c, z.p, TRUE) ELSE CE(z.e)
       [] OTHER -> OkR(com, <<"unit">>, p)
RECURSIVE IterateGo(_, _, _, _, _, _)
IterateGo(ps, c, p, x, vs, com) ==
  IF x > Len(ps) THEN OkR(com, List(vs), p)
  ELSE LET y == IF com THEN Comm(ps[x], c, p) ELSE Parse(ps[x], c, p)
       IN CASE IsOk(y) -> IterateGo(ps, c, y.p, x + 1, vs \o y.v, com \/ y.r = "CO")
            [] y.r = "CE" -> y
            [] OTHER -> IF com THEN CE(y.e) ELSE y

\* -- tokens
TokenIf(c, p, ok, v) ==
  LET u == Uncons(c, p)
  IN IF u.r # "CO" THEN u ELSE IF ok THEN CO(v, u.p) ELSE PE(Empty(p))
Same(t, u) == t = u
RECURSIVE TokensGo(_, _, _, _, _, _, _)
\* s must follow at p, up to case if icase; label is what is expected by the error after a match
TokensGo(s, icase, c, p, start, x, labels) ==
  IF x > Len(s) THEN OkR(x > 1, <<>>, p)
  ELSE IF AtEnd(c, p)
  THEN ErR(x > 1 \/ c.P, ErrAt(start, EOI))
  ELSE IF c.i[p] = s[x] \/ (icase /\ Lower(c.i[p]) = Lower(s[x]) /\ Width(c.i[p]) = 1 /\ Width(s[x]) = 1)
  THEN TokensGo(s, icase, c, p + 1, start, x + 1, labels)
  ELSE IF x > 1 THEN CE([p |-> start, s |-> {UTok(c.i[p])} \cup labels, o |-> 1])
  ELSE PE(Empty(start))
TokensR(s, icase, c, p, labels) == TokensGo(s, icase, c, p, p, 1, labels)

\* -- ranges
RECURSIVE RunEnd(_, _, _)
RunEnd(g, c, p) == IF AtEnd(c, p) \/ ~Has(g, c.i[p]) THEN p ELSE RunEnd(g, c, p + 1)
StreamErr(c, p, x) == IF c.P /\ x = EOI THEN CE(ErrAt(p, x)) ELSE PE(ErrAt(p, x))
TakeR(c, p, n) ==
  LET s == Skip(c, p, n)
  IN CASE s.k = "ok" -> OkR(n > 0, List(Sub(c, p, s.p)), s.p)
       [] s.k = "eoi" -> StreamErr(c, p, EOI)
       [] OTHER -> StreamErr(c, p, CharBoundary)
RangeR(s, c, p) ==
  LET k == Skip(c, p, LenIn(c, s))
  IN CASE k.k = "ok" -> IF Sub(c, p, k.p) = s THEN CO(List(s), k.p) ELSE PE(Empty(p))
       [] k.k = "eoi" -> StreamErr(c, p, EOI)
       [] OTHER -> StreamErr(c, p, CharBoundary)
RECURSIVE FindRange(_, _, _, _)
\* [k, p]: found at p, or not, with the error of the first place that lacked input
FindRange(s, c, p, err) ==
  LET k == Skip(c, p, LenIn(c, s))
      err1 == IF k.k = "ok" \/ err = EOI THEN err
              ELSE IF k.k = "eoi" THEN EOI
              ELSE IF err = <<>> THEN CharBoundary ELSE err
  IN IF k.k = "ok" /\ Sub(c, p, k.p) = s THEN [f |-> TRUE, p |-> p, e |-> <<>>]
     ELSE IF AtEnd(c, p) THEN [f |-> FALSE, p |-> p, e |-> err1]
     ELSE FindRange(s, c, p + 1, err1)
RECURSIVE FindTok(_, _, _)
FindTok(ts, c, p) == IF AtEnd(c, p) THEN 0 ELSE IF c.i[p] \in ts THEN p ELSE FindTok(ts, c, p + 1)
TakeFnR(at, c, p) ==
  IF at # 0 THEN OkR(at > p, List(Sub(c, p, at)), at)
  ELSE ErR(c.P \/ ~AtEnd(c, p), ErrAt(N(c) + 1, EOI))

Bad == Msg("bad")
Big(t) == t \in {"be_u16", "be_i16", "be_u32", "be_i32", "be_f32", "be_u64", "be_i64", "be_f64"}
\* -- numbers in text, at most 255
Digit(t) == CHOOSE x \in 0..9 : ToString(x) = t
RECURSIVE Decimal(_, _)
Decimal(s, n) == \* 300: a letter came first, 256: too large
  IF s = <<>> \/ n > 255 THEN n
  ELSE IF Head(s) \notin Digits THEN 300
  ELSE LET x == 10 * n + Digit(Head(s)) IN Decimal(Tail(s), IF x > 255 THEN 256 ELSE x)
FromStrR(c, p, y) ==
  LET s == SelectSeq(y.v, LAMBDA t : Len(t) = 1)
      err(m) == ErR(y.r = "CO" \/ (c.P /\ AtEnd(c, y.p)), ErrAt(p, Msg(m)))
  IN CASE s = <<>> -> err("cannot parse integer from empty string")
       [] Decimal(s, 0) = 300 -> err("invalid digit found in string")
       [] Decimal(s, 0) = 256 -> err("number too large to fit in target type")
       [] OTHER -> [y EXCEPT !.v = <<"#" \o ToString(Decimal(s, 0))>>]
\* -- regular expressions see the rest of the input
RxVal(c, m) == List(Sub(c, m.s, m.p))
Group(c, q) == IF q = <<>> THEN <<>> ELSE List(Sub(c, q[1], q[2]))
RECURSIVE GroupVals(_, _, _)
GroupVals(c, g, x) == IF x > Len(g) THEN <<>> ELSE Group(c, g[x]) \o GroupVals(c, g, x + 1)
RxCaps(c, m) == List(RxVal(c, m) \o GroupVals(c, m.g, 1))
RECURSIVE RxVals(_, _, _)
RxVals(c, ms, caps) == IF ms = <<>> THEN <<>>
                       ELSE (IF caps THEN RxCaps(c, Head(ms)) ELSE RxVal(c, Head(ms))) \o RxVals(c, Tail(ms), caps)
RxR(g, c, p) ==
  LET m == RxFind(g.x, c.i, p, p, g.n)
      ms == RxMatches(g.x, c.i, p, p, 0, g.n)
      end == IF ms = <<>> THEN p ELSE ms[Len(ms)].p
  IN CASE g.k = "rx_find_many" -> OkR(end > p, List(RxVals(c, ms, FALSE)), end)
       [] g.k = "rx_captures_many" -> OkR(end > p, List(RxVals(c, ms, TRUE)), end)
       [] ~m.f -> PE(Empty(p))
       [] g.k = "rx_match" -> PO(List(Sub(c, p, N(c) + 1)), p)
       [] g.k = "rx_find" -> OkR(m.p > p, RxVal(c, m), m.p)
       [] g.k = "rx_captures" -> OkR(m.p > p, RxCaps(c, m), m.p)
Parse(g, c, p) ==
  CASE g.k = "tok" -> TokenIf(c, p, ~AtEnd(c, p) /\ c.i[p] = g.c, <<g.c>>)
    [] g.k = "any" -> Uncons(c, p)
    [] g.k \in {"sat", "oneof"} -> TokenIf(c, p, ~AtEnd(c, p) /\ Has(g, c.i[p]), <<c.i[p]>>)
    [] g.k = "noneof" -> TokenIf(c, p, ~AtEnd(c, p) /\ ~Has(g, c.i[p]), <<c.i[p]>>)
    [] g.k = "satmap" -> TokenIf(c, p, ~AtEnd(c, p) /\ Has(g, c.i[p]), <<"mapped", c.i[p]>>)
    [] g.k = "class" ->
         CASE g.t = "spaces" -> MapV(ManyR([k |-> "class", t |-> "space"], c, p), <<"unit">>)
           [] g.t = "crlf" -> LET y == SeqR(<<[k |-> "sat", s |-> <<"\r">>], [k |-> "class", t |-> "newline"]>>, c, p)
                              IN MapV(y, <<"\n">>)
           [] OTHER -> TokenIf(c, p, ~AtEnd(c, p) /\ ClassHas(c, g.t, c.i[p]), <<c.i[p]>>)
    [] g.k = "str" -> MapV(TokensR(g.s, FALSE, c, p, IF c.b THEN {ELab(g.t)} ELSE {}), List(g.s))
    [] g.k = "strcmp" -> MapV(TokensR(g.s, TRUE, c, p, {}), List(g.s))
    [] g.k = "toks" -> MapV(TokensR(g.s, FALSE, c, p, {ELab(g.t)}), List(g.s))
    [] g.k = "tokscmp" -> MapV(TokensR(g.s, FALSE, c, p, {}), List(g.s))
    [] g.k = "bytes" -> MapV(TokensR(g.s, FALSE, c, p, {}), List(g.s))
    [] g.k = "bytescmp" -> MapV(TokensR(g.s, TRUE, c, p, {}), List(g.s))
    \* numbers: their bytes, the most significant first
    [] g.k = "num" ->
         IF p + g.n > N(c) + 1 THEN Missing(c, ErrAt(N(c) + 1, EOI))
         ELSE LET q == Sub(c, p, p + g.n)
              IN CO(List(IF Big(g.t) THEN q ELSE [x \in 1..g.n |-> q[g.n + 1 - x]]), p + g.n)
    [] g.k = "eof" -> IF AtEnd(c, p) THEN PO(<<"unit">>, p) ELSE PE(Empty(p))
    [] g.k = "value" -> PO(<<"k:v">>, p)
    [] g.k = "produce" -> PO(<<"k:p">>, p)
    [] g.k = "posn" -> PO(<<"@" \o ToString(p)>>, p)
    [] g.k = "unexpected" -> PE(Empty(p))
    \* sequences
    [] g.k \in {"seq1", "seq2", "seq3", "seq4", "tup", "and"} ->
         LET y == SeqR(g.ps, c, p) IN IF IsOk(y) THEN [y EXCEPT !.v = Tup(Flat(@))] ELSE y
    [] g.k = "struct3" -> LET y == SeqR(g.ps, c, p) IN IF IsOk(y) THEN [y EXCEPT !.v = Tup(@[1] \o @[3])] ELSE y
    [] g.k = "with" -> LET y == SeqR(g.ps, c, p) IN IF IsOk(y) THEN [y EXCEPT !.v = @[2]] ELSE y
    [] g.k = "skip" -> LET y == SeqR(g.ps, c, p) IN IF IsOk(y) THEN [y EXCEPT !.v = @[1]] ELSE y
    [] g.k = "between" ->
         LET y == SeqR(<<g.ps[1], g.ps[3], g.ps[2]>>, c, p) IN IF IsOk(y) THEN [y EXCEPT !.v = @[2]] ELSE y
    [] g.k \in {"then", "then_partial", "then_ref", "dispatch"} ->
         LET y == Parse(g.ps[1], c, p)
             nx == IF g.k = "dispatch"
                   THEN IF y.v \in {<<"a">>, <<"1">>} THEN g.ps[2]
                        ELSE IF Contains(y.v, g.c) THEN g.ps[3] ELSE [k |-> "valued"]
                   ELSE IF Contains(y.v, g.c) THEN g.ps[2] ELSE g.ps[3]
             z == Comm(nx, c, y.p)
         IN IF ~IsOk(y) THEN y
            ELSE LET w == CommitIf(y.r = "CO", z)
                 IN IF g.k = "then_ref" /\ IsOk(w) THEN [w EXCEPT !.v = Tup(y.v \o z.v)] ELSE w
    [] g.k = "valued" -> PO(<<"k:d">>, p)
    \* choices
    [] g.k \in {"or", "choice2", "choice3", "choice4", "chs"} -> ChoiceGo(g.ps, c, p, 1, <<>>)
    [] g.k = "choicem" ->
         IF Len(g.ps) = 2 THEN ChoiceGo(g.ps, c, p, 1, <<>>)
         ELSE ChoiceGo(<<g.ps[1], [k |-> "choicem", ps |-> Tail(g.ps)]>>, c, p, 1, <<>>)
    [] g.k \in {"arr", "arr2", "arr3", "slice"} -> SliceGo(Kids(g), c, p, 1, NoE, 0)
    [] g.k = "optional" ->
         LET y == Parse(g.ps[1], c, p)
         IN CASE IsOk(y) -> [y EXCEPT !.v = <<"Some">> \o @]
              [] y.r = "PE" -> PO(<<"None">>, p)
              [] OTHER -> y
    \* lookahead
    [] g.k = "attempt" ->
         LET y == Comm(g.ps[1], c, p)
         IN IF y.r = "CE" /\ ~(c.P /\ IsEoi(y.e)) THEN ErR(FALSE, y.e) ELSE y
    [] g.k = "look_ahead" -> LET y == Parse(g.ps[1], c, p) IN IF IsOk(y) THEN PO(y.v, p) ELSE y
    [] g.k = "nfb" ->
         LET y == Parse(g.ps[1], c, p)
         IN CASE IsOk(y) -> PE(Empty(p))
              [] y.r = "CE" /\ c.P /\ IsEoi(y.e) -> y
              [] OTHER -> PO(<<"unit">>, p)
    \* mapping
    [] g.k \in {"map", "map_input"} -> LET y == Parse(g.ps[1], c, p) IN MapV(y, <<"mapped">> \o y.v)
    [] g.k = "and_then" ->
         LET y == Parse(g.ps[1], c, p)
         IN IF IsOk(y) /\ Contains(y.v, g.c) THEN ErR(y.r = "CO" \/ (c.P /\ AtEnd(c, y.p)), ErrAt(p, Bad)) ELSE y
    [] g.k = "fromstr" -> LET y == Parse(g.ps[1], c, p) IN IF IsOk(y) THEN FromStrR(c, p, y) ELSE y
    [] g.k \in {"rx_match", "rx_find", "rx_find_many", "rx_captures", "rx_captures_many"} -> RxR(g, c, p)
    [] g.k = "flat_map" ->
         LET y == Parse(g.ps[1], c, p)
         IN IF IsOk(y) /\ Contains(y.v, g.c) THEN ErR(y.r = "CO", ErrAt(y.p, Bad)) ELSE y
    [] g.k = "recognize" -> LET y == Parse(g.ps[1], c, p) IN MapV(y, List(Sub(c, p, y.p)))
    \* labels
    [] g.k = "expected" -> Parse(g.ps[1], c, p)
    [] g.k = "message" -> LET y == Parse(g.ps[1], c, p) IN IF y.r = "CE" THEN CE(Add(y.e, Msg(g.t))) ELSE y
    [] g.k = "silent" ->
         LET y == Parse(g.ps[1], c, p)
         IN IF IsOk(y) THEN y ELSE [y EXCEPT !.e.s = {x \in @ : x[1] # "E"}]
    \* repetition
    [] g.k = "count" -> CountR(g.ps[1], c, p, 0, g.n)
    [] g.k = "cmm" -> CountR(g.ps[1], c, p, g.n, g.m)
    [] g.k = "skip_count" -> LET y == CountR(g.ps[1], c, p, 0, g.n) IN MapV(y, <<"unit">>)
    [] g.k = "skip_cmm" -> LET y == CountR(g.ps[1], c, p, g.n, g.m) IN MapV(y, <<"unit">>)
    [] g.k = "many" -> ManyR(g.ps[1], c, p)
    [] g.k = "iter" -> LET it == IterGo(g.ps[1], c, p, g.n, <<>>, FALSE) IN IterR(it, List(Flat(it.vs)))
    [] g.k = "many1" -> Many1R(g.ps[1], c, p)
    [] g.k = "skip_many" -> MapV(ManyR(g.ps[1], c, p), <<"unit">>)
    [] g.k = "skip_many1" -> MapV(Many1R(g.ps[1], c, p), <<"unit">>)
    [] g.k = "sep_by1" -> Sep1R(g.ps[1], g.ps[2], c, p)
    [] g.k = "sep_by" -> OrEmpty(Sep1R(g.ps[1], g.ps[2], c, p), p)
    [] g.k = "sep_end_by1" -> SepEnd1R(g.ps[1], g.ps[2], c, p)
    [] g.k = "sep_end_by" -> OrEmpty(SepEnd1R(g.ps[1], g.ps[2], c, p), p)
    [] g.k = "chainl1" ->
         LET y == Parse(g.ps[1], c, p)
         IN IF IsOk(y) THEN ChainlGo(g.ps[1], g.ps[2], c, y.p, y.v, y.r = "CO") ELSE y
    [] g.k = "chainr1" ->
         LET y == Parse(g.ps[1], c, p) IN IF IsOk(y) THEN ChainrGo(g, c, y.p, y.v, y.r = "CO") ELSE y
    [] g.k = "take_until" -> TakeUntilGo(g.ps[1], c, p, <<>>, FALSE)
    [] g.k = "skip_until" -> MapV(TakeUntilGo(g.ps[1], c, p, <<>>, FALSE), <<"unit">>)
    [] g.k = "repeat_until" -> RepeatUntilGo(g.ps[1], g.ps[2], c, p, <<>>, FALSE)
    [] g.k = "repeat_skip_until" -> MapV(RepeatUntilGo(g.ps[1], g.ps[2], c, p, <<>>, FALSE), <<"unit">>)
    [] g.k = "escaped" -> EscapedGo(g, c, p, FALSE)
    [] g.k = "iterate" -> IterateGo(g.ps, c, p, 1, <<>>, FALSE)
    \* ranges
    [] g.k = "range" -> RangeR(g.s, c, p)
    [] g.k = "take" -> TakeR(c, p, g.n)
    [] g.k = "take_while" ->
         LET q == RunEnd(g, c, p)
         IN IF c.P /\ AtEnd(c, q) THEN CE(ErrAt(q, EOI)) ELSE OkR(q > p, List(Sub(c, p, q)), q)
    [] g.k = "take_while1" ->
         LET q == RunEnd(g, c, p)
         IN IF c.P /\ AtEnd(c, q) THEN CE(ErrAt(q, EOI))
            ELSE IF q > p THEN CO(List(Sub(c, p, q)), q)
            ELSE PE(Empty(p))
    [] g.k = "take_until_range" ->
         LET f == FindRange(g.s, c, p, <<>>)
         IN IF f.f THEN OkR(f.p > p, List(Sub(c, p, f.p)), f.p) ELSE StreamErr(c, p, f.e)
    [] g.k \in {"take_fn", "take_fn2"} -> TakeFnR(FindTok({g.c}, c, p), c, p)
    [] g.k = "tub" -> TakeFnR(FindTok(RangeOf(g.s), c, p), c, p)
    [] g.k = "tubs" -> LET f == FindRange(g.s, c, p, <<>>) IN TakeFnR(IF f.f THEN f.p ELSE 0, c, p)
    [] g.k \in {"rrec", "rrecv"} ->
         LET y == Parse(g.ps[1], c, p)
             v == List(Sub(c, p, y.p))
         IN IF IsOk(y) THEN OkR(y.p > p, IF g.k = "rrec" THEN v ELSE Tup(v \o y.v), y.p) ELSE y
    [] g.k = "length_prefix" ->
         LET y == Parse(g.ps[1], c, p)
             n == IF Len(y.v) = 1 /\ y.v[1] \in Digits
                  THEN CHOOSE x \in 0..9 : ToString(x) = y.v[1] ELSE 0
             z == WithErrors([k |-> "take"], c, y.p, TakeR(c, y.p, n))
         IN IF IsOk(y) THEN CommitIf(y.r = "CO", z) ELSE y
    \* transparent wrappers
    [] g.k = "fnp" -> LET y == Full(g.ps[1], c, p) IN IF y.r = "PE" THEN PE(y.e) ELSE y
    [] g.k \in {"lazy", "factory", "opaque", "no_partial", "aps", "asps", "assps", "boxed", "left", "right",
                "spanned", "byref", "pmacro"} -> Parse(g.ps[1], c, p)
=============================================================================
