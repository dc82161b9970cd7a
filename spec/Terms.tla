------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Terms to enumerate: a small selection for the laws (CombineLaws) and all  *)
(* kinds of parsers for the enumerated conformance checks (TermsGen).        *)
(***************************************************************************)
EXTENDS Combine

L(s, t) == [k |-> "str", s |-> s, t |-> t]
TokP(t) == [k |-> "tok", c |-> t]
ValueP == [k |-> "value"]
\* the leaves on which everything is built, and the ones for deeper terms
Few == {TokP("a"), L(<<"a", "b">>, "ab"), [k |-> "optional", ps |-> <<TokP("b")>>]}
Leaves == Few \cup {TokP("b"), [k |-> "any"], ValueP, [k |-> "posn"], [k |-> "unexpected", t |-> "x"], [k |-> "sat", s |-> <<"a">>],
  [k |-> "noneof", s |-> <<"a">>], [k |-> "toks", s |-> <<"b", "a">>, t |-> "ba"], [k |-> "take", n |-> 2],
  [k |-> "take_while", s |-> <<"a">>], [k |-> "take_while1", s |-> <<"b">>], [k |-> "range", s |-> <<"b", "b">>, t |-> "bb"],
  [k |-> "take_until_range", s |-> <<"b", "a">>, t |-> "ba"], [k |-> "take_fn", c |-> "b"], [k |-> "class", t |-> "letter"]}
RECURSIVE Eats(_)
\* it cannot succeed without taking something
Eats(q) ==
  CASE q.k \in {"tok", "any", "sat", "satmap", "oneof", "noneof", "take_while1"} -> TRUE
    [] q.k = "class" -> q.t # "spaces"
    [] q.k = "take" -> q.n > 0
    [] q.k \in {"str", "strcmp", "toks", "tokscmp", "range"} -> q.s # <<>>
    [] q.k \in {"unexpected"} -> TRUE
    [] q.k \in {"and", "seq2", "with", "skip"} -> Eats(q.ps[1]) \/ Eats(q.ps[2])
    [] q.k \in {"or", "slice"} -> Eats(q.ps[1]) /\ Eats(q.ps[2])
    [] q.k \in {"attempt", "map", "expected", "message", "silent", "many1", "sep_by1", "sep_end_by1", "chainl1", "chainr1", "and_then",
                "flat_map", "recognize", "spanned", "boxed", "fnp"} -> Eats(q.ps[1])
    [] OTHER -> FALSE
Unary == {"attempt", "look_ahead", "nfb", "optional", "map", "recognize", "silent", "fnp", "boxed"}
Loops == {"many", "many1", "skip_many"}
U1(q) == {[k |-> u, ps |-> <<q>>] : u \in Unary}
  \cup {[k |-> "expected", t |-> "l", ps |-> <<q>>], [k |-> "message", t |-> "m", ps |-> <<q>>], [k |-> "and_then", c |-> "a", ps |-> <<q>>],
        [k |-> "flat_map", c |-> "b", ps |-> <<q>>], [k |-> "count", n |-> 2, ps |-> <<q>>], [k |-> "cmm", n |-> 1, m |-> 2, ps |-> <<q>>]}
  \cup (IF Eats(q) THEN {[k |-> u, ps |-> <<q>>] : u \in Loops} ELSE {})
  \cup {[k |-> "take_until", ps |-> <<q>>]}
B1(q, r) == {[k |-> b, ps |-> <<q, r>>] : b \in {"and", "with", "skip", "or", "slice"}}
  \cup (IF Eats(q) /\ Eats(r) THEN {[k |-> b, ps |-> <<q, r>>] : b \in {"sep_by", "sep_by1", "sep_end_by", "sep_end_by1", "chainl1", "chainr1"}} ELSE {})
  \cup (IF Eats(q) THEN {[k |-> "repeat_until", ps |-> <<q, r>>], [k |-> "escaped", c |-> "b", ps |-> <<q, r>>]} ELSE {})
  \cup {[k |-> "then", c |-> "a", ps |-> <<q, r, ValueP>>]}
Terms1 == Leaves \cup UNION {U1(q) : q \in Leaves} \cup UNION {B1(q, r) : q, r \in Leaves}
Few1 == UNION {U1(q) : q \in Few}
Few2 == UNION {B1(q, r) : q, r \in Few}
Terms2(dummy) == UNION {U1(q) : q \in Few2} \cup UNION {B1(q, r) : q \in Few1, r \in Few} \cup UNION {B1(q, r) : q \in Few, r \in Few1}

(* ------------------------------ every kind ------------------------------ *)
O(k) == [k |-> k]
S1(k, s) == [k |-> k, s |-> s]
LeafTerms == {
  O("any"), TokP("a"), TokP("b"), S1("sat", <<"a">>), S1("satmap", <<"b">>), S1("oneof", <<"a", "b">>), S1("noneof", <<"a">>),
  [k |-> "class", t |-> "letter"], [k |-> "class", t |-> "digit"], [k |-> "class", t |-> "spaces"],
  L(<<"a", "b">>, "ab"), [k |-> "strcmp", s |-> <<"b", "a">>, t |-> "ba"], [k |-> "toks", s |-> <<"b", "a">>, t |-> "ba"],
  [k |-> "tokscmp", s |-> <<"a", "a">>, t |-> "aa"], L(<<>>, ""), O("eof"), ValueP, O("produce"), [k |-> "unexpected", t |-> "x"],
  [k |-> "range", s |-> <<"b", "b">>, t |-> "bb"], [k |-> "take", n |-> 2], [k |-> "take", n |-> 0], S1("take_while", <<"a">>), S1("take_while1", <<"b">>),
  [k |-> "take_until_range", s |-> <<"b", "a">>, t |-> "ba"], [k |-> "take_fn", c |-> "b"], [k |-> "take_fn2", c |-> "b"]}
Kid == {TokP("a"), L(<<"a", "b">>, "ab"), [k |-> "optional", ps |-> <<TokP("b")>>], ValueP, [k |-> "many", ps |-> <<TokP("a")>>], [k |-> "take", n |-> 2]}
Kid3 == {TokP("a"), L(<<"b", "a">>, "ba"), [k |-> "optional", ps |-> <<TokP("b")>>]}
UnaryOf(q) ==
  {[k |-> k, ps |-> <<q>>] : k \in
     {"seq1", "optional", "attempt", "look_ahead", "nfb", "map", "map_input", "recognize", "silent", "take_until", "skip_until",
      "fnp", "lazy", "factory", "opaque", "no_partial", "aps", "asps", "assps", "boxed", "left", "right", "byref", "pmacro", "rrec", "rrecv"}}
  \cup {[k |-> k, t |-> "l", ps |-> <<q>>] : k \in {"expected", "message"}}
  \cup {[k |-> k, c |-> "a", ps |-> <<q>>] : k \in {"and_then", "flat_map"}}
  \cup {[k |-> k, n |-> n, ps |-> <<q>>] : k \in {"count", "skip_count"}, n \in {0, 2}}
  \cup {[k |-> k, n |-> n, m |-> 2, ps |-> <<q>>] : k \in {"cmm", "skip_cmm"}, n \in {0, 1}}
  \cup (IF ~Eats(q) THEN {} ELSE
        {[k |-> k, ps |-> <<q>>] : k \in {"many", "many1", "skip_many", "skip_many1"}} \cup {[k |-> "iter", n |-> 2, ps |-> <<q>>]})
BinaryOf(q, r) ==
  {[k |-> k, ps |-> <<q, r>>] : k \in {"seq2", "and", "with", "skip", "or", "choice2", "arr2", "slice", "iterate"}}
  \cup (IF ~Eats(r) THEN {} ELSE {[k |-> k, ps |-> <<q, r>>] : k \in {"sep_by", "sep_by1", "sep_end_by", "sep_end_by1", "chainl1", "chainr1"}})
  \cup (IF ~Eats(q) THEN {} ELSE {[k |-> k, ps |-> <<q, r>>] : k \in {"repeat_until", "repeat_skip_until"}} \cup {[k |-> "escaped", c |-> "b", ps |-> <<q, r>>]})
TernaryOf(q, r, s) ==
  {[k |-> k, ps |-> <<q, r, s>>] : k \in {"seq3", "struct3", "between", "choice3", "choicem", "arr3"}}
  \cup {[k |-> k, c |-> "a", ps |-> <<q, r, s>>] : k \in {"then", "then_partial", "then_ref", "dispatch"}}
FlatTerms(dummy) == LeafTerms \cup UNION {UnaryOf(q) : q \in LeafTerms} \cup UNION {BinaryOf(q, r) : q, r \in Kid} \cup UNION {TernaryOf(q, r, s) : q, r, s \in Kid3}
SmallU == UNION {UnaryOf(q) : q \in Kid3}
SmallB == UNION {BinaryOf(q, r) : q, r \in {TokP("a"), L(<<"b", "a">>, "ba")}}
\* with an argument, so that TLC does not evaluate it where it is not used
DeepTerms(dummy) ==
  UNION ({UnaryOf(q) : q \in SmallU \cup SmallB} \cup {BinaryOf(q, r) : q \in SmallU \cup SmallB, r \in Kid3} \cup {BinaryOf(q, r) : q \in Kid3, r \in SmallU \cup SmallB})
\* terms with one of these kinds at the top or just below it
About(q, F) == q.k \in F \/ \E x \in 1..Len(Kids(q)) : Kids(q)[x].k \in F
Of(ts, F) == IF F = {} THEN ts ELSE {q \in ts : About(q, F)}
ChoiceK == {"or", "choice2", "choice3", "choicem", "arr2", "arr3", "slice", "optional"}
LookK == {"attempt", "look_ahead", "nfb"}
SeqK == {"seq1", "seq2", "seq3", "struct3", "and", "with", "skip", "between", "then", "then_partial", "then_ref", "dispatch", "map", "map_input",
         "and_then", "flat_map", "recognize"}
RepeatK == {"count", "skip_count", "cmm", "skip_cmm", "many", "many1", "skip_many", "skip_many1", "sep_by", "sep_by1", "sep_end_by", "sep_end_by1",
            "chainl1", "chainr1", "take_until", "skip_until", "repeat_until", "repeat_skip_until", "escaped", "iterate", "iter"}
LabelK == {"expected", "message", "silent"}
WrapK == {"fnp", "lazy", "factory", "opaque", "no_partial", "aps", "asps", "assps", "boxed", "left", "right", "byref", "pmacro"}
RangeK == {"range", "take", "take_while", "take_while1", "take_until_range", "take_fn", "take_fn2", "rrec", "rrecv"}
Focus(n) == CASE n = "choice" -> ChoiceK [] n = "look" -> LookK [] n = "seq" -> SeqK [] n = "repeat" -> RepeatK [] n = "label" -> LabelK
              [] n = "wrap" -> WrapK [] n = "range" -> RangeK [] n = "all" -> {}
=============================================================================
