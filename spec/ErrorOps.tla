------------------------------ MODULE ErrorOps ------------------------------
(***************************************************************************)
(* Error values.  The collecting type keeps a position and, without          *)
(* repetition and in order, the items that were added there; merging keeps  *)
(* the further one, and both where they are as far.  The types without      *)
(* details keep what went wrong last, but never forget that the input       *)
(* ended.  Items are <<kind, type of content, content>>, of kind U          *)
(* (unexpected), E (expected), M (message) and O (another error), or "end". *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

END == <<"U", "s", "end of input">>
BOUNDARY == "unexpected slice on character boundary"
Plain == {"unexpected", "string", "read"}
\* how the collecting types keep an item
Keep(i) == IF i[1] = "end" THEN END ELSE IF i[1] = "O" THEN <<"O", "s", "boom">>
           ELSE IF i[2] = "f" THEN <<i[1], "s", i[3]>> ELSE i
\* what the types without details keep of it
Class(ty, i) == IF i[1] = "end" THEN "eoi"
                ELSE IF ty = "string" /\ i[1] = "M" /\ i[2] = "s" /\ i[3] = BOUNDARY THEN "boundary"
                ELSE "unexpected"
InSeq(x, s) == \E k \in 1..Len(s) : s[k] = x
\* other errors are never equal
AddTo(s, x) == IF x[1] # "O" /\ InSeq(x, s) THEN s ELSE Append(s, x)
RECURSIVE AddAll(_, _)
AddAll(s, t) == IF t = <<>> THEN s ELSE AddAll(AddTo(s, Head(t)), Tail(t))
NotE(s) == SelectSeq(s, LAMBDA x : x[1] # "E")

Empty(ty, p) ==
  CASE ty = "errors" -> [p |-> p, s |-> <<>>, c |-> ""]
    [] ty = "error"  -> [p |-> 0, s |-> <<<<"M", "s", "">>>>, c |-> ""]
    [] OTHER -> [p |-> 0, s |-> <<>>, c |-> "unexpected"]
FromItem(ty, p, i) ==
  CASE ty = "errors" -> [p |-> p, s |-> <<Keep(i)>>, c |-> ""]
    [] ty = "error"  -> [p |-> 0, s |-> <<Keep(i)>>, c |-> ""]
    [] OTHER -> [p |-> 0, s |-> <<>>, c |-> Class(ty, i)]
AddItem(ty, e, i) ==
  CASE ty = "errors" -> [e EXCEPT !.s = AddTo(e.s, Keep(i))]
    [] ty = "error"  -> [e EXCEPT !.s = <<Keep(i)>>]
    [] OTHER -> IF e.c = "eoi" THEN e ELSE [e EXCEPT !.c = Class(ty, i)]
RECURSIVE AddItems(_, _, _)
AddItems(ty, e, s) == IF s = <<>> THEN e ELSE AddItems(ty, AddItem(ty, e, Head(s)), Tail(s))
SetPos(ty, e, p) == IF ty = "errors" THEN [e EXCEPT !.p = p] ELSE e
MergeErr(ty, a, b) ==
  IF ty # "errors" THEN b
  ELSE IF a.p < b.p THEN b ELSE IF a.p > b.p THEN a ELSE [a EXCEPT !.s = AddAll(a.s, b.s)]
\* `i` instead of what adding `adds` adds to the expectations
SetExpected(ty, e, i, adds) ==
  LET f == AddItems(ty, e, adds)
  IN CASE ty = "errors" -> AddItem(ty, [f EXCEPT !.s = e.s \o NotE(SubSeq(f.s, Len(e.s) + 1, Len(f.s)))], i)
       [] ty = "error" -> [f EXCEPT !.s = <<Keep(i)>>]
       [] OTHER -> AddItem(ty, f, i)
Clear(ty, e) == IF ty = "errors" THEN [e EXCEPT !.s = NotE(e.s)] ELSE e
Eoi(ty, e) == IF ty \in Plain THEN e.c = "eoi" ELSE InSeq(END, e.s)
\* the methods of the collecting type: `set_expected` replaces every expectation
Own(e, i) == IF i[1] = "E" THEN [e EXCEPT !.s = Append(NotE(e.s), Keep(i))] ELSE AddItem("errors", e, i)

\* an error of given items, which are kept as they are
FromList(p, s) == [p |-> p, s |-> [k \in 1..Len(s) |-> Keep(s[k])], c |-> ""]
\* tokens in upper case, longer or shorter ranges, later positions: item by item
MapItem(x) == IF x[2] = "t" /\ x[3] \in {"a", "b"} THEN <<x[1], x[2], IF x[3] = "a" THEN "A" ELSE "B">>
              ELSE IF x[2] = "r" THEN <<x[1], x[2], CASE x[3] = "a" -> "aa" [] x[3] = "xy" -> "a" [] OTHER -> x[3]>> ELSE x
MapErr(ty, e) == IF ty = "errors" THEN [e EXCEPT !.s = [k \in 1..Len(e.s) |-> MapItem(e.s[k])], !.p = e.p + 10]
                 ELSE IF ty = "error" THEN [e EXCEPT !.s = [k \in 1..Len(e.s) |-> MapItem(e.s[k])]] ELSE e
\* other errors and those of a reader equal nothing
SameErr(a, b) == a = b /\ a.c # "io" /\ \A k \in 1..Len(a.s) : a.s[k][1] # "O"

\* an item of an error on its way into another type
Carry(x) == IF x = END THEN <<"end", "", "">> ELSE IF x[1] = "O" THEN <<"M", "f", "boom">> ELSE x
OfClass(c) == CASE c = "eoi" -> <<"end", "", "">>
                [] c = "boundary" -> <<"U", "s", BOUNDARY>>
                [] OTHER -> <<"U", "s", "parse">>
\* the short way keeps only the last item
IntoOther(from, e, all, ty) ==
  IF from \in Plain THEN FromItem(ty, 0, OfClass(e.c))
  ELSE IF from = "error" THEN FromItem(ty, 0, Carry(e.s[1]))
  ELSE IF all THEN AddItems(ty, Empty(ty, e.p), [k \in 1..Len(e.s) |-> Carry(e.s[k])])
  ELSE IF e.s = <<>> THEN Empty(ty, e.p) ELSE FromItem(ty, e.p, Carry(e.s[Len(e.s)]))

\* the message
Quoted(x) == IF x[2] \in {"t", "r"} THEN "`" \o x[3] \o "`" ELSE x[3]
ItemText(x) == CASE x[1] = "U" -> "Unexpected " \o Quoted(x) [] x[1] = "E" -> "Expected " \o Quoted(x) [] OTHER -> Quoted(x)
RECURSIVE Lines(_)
Lines(s) == IF s = <<>> THEN "" ELSE ItemText(Head(s)) \o "\n" \o Lines(Tail(s))
RECURSIVE Listing(_, _)
Listing(s, k) ==
  IF k > Len(s) THEN ""
  ELSE (IF k = 1 THEN "Expected " ELSE IF k < Len(s) THEN ", " ELSE " or ") \o Quoted(s[k]) \o Listing(s, k + 1)
Text(ty, e) ==
  CASE ty = "errors" ->
         LET es == SelectSeq(e.s, LAMBDA x : x[1] = "E")
         IN "Parse error at " \o ToString(e.p) \o "\n" \o Lines(SelectSeq(e.s, LAMBDA x : x[1] = "U"))
            \o (IF es = <<>> THEN "" ELSE Listing(es, 1) \o "\n")
            \o Lines(SelectSeq(e.s, LAMBDA x : x[1] \in {"M", "O"}))
    [] ty = "error" -> ItemText(e.s[1])
    [] OTHER -> CASE e.c = "eoi" -> "unexpected end of input" [] e.c = "boundary" -> BOUNDARY [] OTHER -> "unexpected parse"

\* results with their commitment, <<"CO", v>> and so on
AndThen(a, b) ==
  CASE a[1] = "CO" -> <<CASE b[1] = "PO" -> "CO" [] b[1] = "PE" -> "CE" [] OTHER -> b[1], b[2]>>
    [] a[1] = "PO" -> b
    [] OTHER -> a
OkR(a) == a[1] \in {"CO", "PO"}
YesNo(b) == <<"", IF b THEN "yes" ELSE "no">>
ResultOp(y) ==
  CASE y.op \in {"and_then", "combine"} -> AndThen(y.a, y.b)
    [] y.op = "map" -> IF OkR(y.a) THEN <<y.a[1], "11">> ELSE y.a
    [] y.op = "map_err" -> IF OkR(y.a) THEN y.a ELSE <<y.a[1], y.a[2] \o "!">>
    [] y.op = "is_ok" -> YesNo(OkR(y.a))
    [] y.op = "is_err" -> YesNo(~OkR(y.a))
    [] y.op = "same" -> y.a
    [] y.op = "merge" -> <<IF y.a[1] = "CO" THEN "CO" ELSE y.b[1], y.b[2]>>
    [] y.op = "into_commit" -> <<"CO", y.a[2]>>
    [] y.op = "into_peek" -> <<"PO", y.a[2]>>
    [] y.op = "is_peek" -> YesNo(y.a[1] = "PO")
    [] y.op = "inner" -> <<"", y.a[2]>>
=============================================================================
