---------------------------- MODULE CombineLaws ----------------------------
(***************************************************************************)
(* Laws of the meaning of parsers given by Combine, for all small terms and *)
(* all small inputs, complete or partial.  The conformance checks bind       *)
(* Combine to the code; these laws bind it to what users rely on.            *)
(***************************************************************************)
EXTENDS Resume, Terms, Json, SequencesExt
CONSTANTS MaxLen, Deep
VARIABLES at, i
vars == <<at, i, fed, base, msgs, phase>>

Ts == SetToSeq(IF Deep THEN Terms2(0) ELSE Terms1)
Lanes == 64
ASSUME Len(Ts) >= Lanes
Init == at \in 1..Lanes /\ i = <<>> /\ RInit
Other == i = <<>> /\ at + Lanes <= Len(Ts) /\ at' = at + Lanes /\ UNCHANGED <<i, fed, base, msgs, phase>>
More == Len(i) < MaxLen /\ (\E t \in {"a", "b"} : i' = Append(i, t)) /\ UNCHANGED <<at, fed, base, msgs, phase>>
g == Ts[at]
Spec == Init /\ [][Other \/ More]_vars

C(P) == [i |-> i, P |-> P, b |-> FALSE]
Out(q, P) == LET x == Parse(q, C(P), 1) IN <<x.r, x.v, x.p>>
\* outcome without the value
Way(q, P) == LET x == Parse(q, C(P), 1) IN <<x.r, x.p>>
Alike(q, r) == \A P \in BOOLEAN : Out(q, P) = Out(r, P)
SameWay(q, r) == \A P \in BOOLEAN : Way(q, P) = Way(r, P)
Ok(q, P) == IsOk(Parse(q, C(P), 1))
R(q, P) == Parse(q, C(P), 1).r
Val(q, P) == Parse(q, C(P), 1).v
Needs(q, P) == LET x == FullP(q, C(P), 1) IN ~IsOk(x) /\ P /\ IsEoi(x.e)
T(k, ps) == [k |-> k, ps |-> ps]

\* results point into the input; what did not commit consumed nothing
Sane_ == \A P \in BOOLEAN :
  LET x == FullP(g, C(P), 1)
  IN /\ IsOk(x) => x.p \in 1..(Len(i) + 1)
     /\ x.r = "PO" => x.p = 1
     /\ ~IsOk(x) => x.e.p \in 1..(Len(i) + 1) /\ (x.e.s # {} \/ x.e.p = Len(i) + 1)
     /\ ~P => \/ IsOk(x) \/ ~IsEoi(x.e) \/ x.e.p <= Len(i) + 1
\* an answer on partial input that does not ask for more stays what it is, whatever follows,
\* and where the input turns out to be complete
RECURSIVE HasEof(_)
HasEof(q) == q.k = "eof" \/ \E x \in 1..Len(Kids(q)) : HasEof(Kids(q)[x])
Ans(n, P) == LET m == Outcome(g, i, n, P, FALSE, 1) a == Answer(m, P) IN <<a, IF a = "ok" THEN m.v ELSE <<>>, IF a = "ok" THEN m.p ELSE 0>>
Stable_ == \A n \in 0..Len(i) : LET a == Ans(n, TRUE) IN a[1] # "need" => a = Ans(Len(i), TRUE) /\ a = Ans(Len(i), FALSE)

Some == {L(<<"a", "b">>, "ab"), T("optional", <<TokP("b")>>)}
ChoiceLaws_ == \A q, r \in Some :
  /\ Alike(T("or", <<g, q>>), T("choice2", <<g, q>>))
  /\ Alike(T("or", <<g, q>>), T("slice", <<g, q>>))
  /\ Alike(T("or", <<T("or", <<g, q>>), r>>), T("or", <<g, T("or", <<q, r>>)>>))
  /\ Alike(T("or", <<T("or", <<q, g>>), r>>), T("choice3", <<q, g, r>>))
  /\ Alike(T("or", <<g, g>>), g)
  /\ \A P \in BOOLEAN : R(g, P) # "PE" => Out(T("or", <<g, q>>), P) = Out(g, P)
  /\ \A P \in BOOLEAN : R(g, P) = "PE" => Out(T("or", <<g, q>>), P) = Out(q, P)
  /\ Alike(T("or", <<g, ValueP>>), T("or", <<T("or", <<g, ValueP>>), q>>))
  /\ \A P \in BOOLEAN : R(T("optional", <<g>>), P) # "PE"
  /\ SameWay(T("optional", <<g>>), T("or", <<g, ValueP>>))
  \* what follows a choice can be moved into it if its branches do not overlap
  /\ \A P \in BOOLEAN : R(g, P) = "PE" => Out(T("and", <<T("or", <<g, q>>), r>>), P) = Out(T("and", <<q, r>>), P)
LookLaws_ ==
  /\ \A P \in BOOLEAN : LET x == Parse(T("attempt", <<g>>), C(P), 1) y == Parse(g, C(P), 1)
                        IN /\ IsOk(y) => x = y
                           /\ x.r = "CE" => P /\ IsEoi(x.e) /\ y.r = "CE"
                           /\ IsOk(x) => IsOk(y)
  /\ Alike(T("attempt", <<T("attempt", <<g>>)>>), T("attempt", <<g>>))
  /\ \A q \in Some, P \in BOOLEAN :
       ~Ok(g, P) /\ R(T("attempt", <<g>>), P) = "PE" => Out(T("or", <<T("attempt", <<g>>), q>>), P) = Out(q, P)
  /\ \A P \in BOOLEAN : LET x == Parse(T("look_ahead", <<g>>), C(P), 1) y == Parse(g, C(P), 1)
                        IN IF IsOk(y) THEN x.r = "PO" /\ x.p = 1 /\ x.v = y.v ELSE x = y
  /\ Alike(T("look_ahead", <<T("look_ahead", <<g>>)>>), T("look_ahead", <<g>>))
  /\ Alike(T("with", <<T("look_ahead", <<g>>), g>>), g)
  /\ \A P \in BOOLEAN : LET n == R(T("nfb", <<g>>), P)
                        IN /\ n = "CE" => P
                           /\ ~P => (n = "PO" <=> ~Ok(g, P)) /\ (n = "PE" <=> Ok(g, P))
  /\ \A P \in BOOLEAN : R(T("nfb", <<g>>), P) # "CE" => (Ok(T("nfb", <<T("nfb", <<g>>)>>), P) <=> Ok(T("look_ahead", <<g>>), P))
SeqLaws_ == \A q, r \in Some :
  /\ Alike(T("with", <<g, T("with", <<q, r>>)>>), T("with", <<T("with", <<g, q>>), r>>))
  /\ Alike(T("skip", <<T("with", <<q, g>>), r>>), T("between", <<q, r, g>>))
  /\ Alike(T("with", <<ValueP, g>>), g) /\ Alike(T("skip", <<g, ValueP>>), g)
  /\ SameWay(T("seq3", <<q, g, r>>), T("and", <<q, T("and", <<g, r>>)>>))
  /\ SameWay(T("and", <<g, q>>), T("skip", <<g, q>>)) /\ SameWay(T("and", <<g, q>>), T("with", <<g, q>>))
  /\ Alike([k |-> "then", c |-> "z", ps |-> <<g, q, r>>], T("with", <<g, r>>))
  /\ \A P \in BOOLEAN : R(g, P) \in {"CE", "PE"} => Way(T("and", <<g, q>>), P) = Way(g, P)
  /\ \A P \in BOOLEAN : R(g, P) = "CO" => R(T("and", <<g, q>>), P) \in {"CO", "CE"}
RepeatLaws_ == Eats(g) =>
  LET unit(q) == [k |-> "with", ps |-> <<q, ValueP>>]
  IN /\ SameWay(T("many", <<g>>), T("or", <<T("many1", <<g>>), ValueP>>))
     /\ SameWay(T("many1", <<g>>), T("and", <<g, T("many", <<g>>)>>))
     /\ SameWay(T("many", <<g>>), T("skip_many", <<g>>)) /\ SameWay(T("many1", <<g>>), T("skip_many1", <<g>>))
     /\ SameWay([k |-> "cmm", n |-> 2, m |-> 2, ps |-> <<g>>], T("and", <<g, g>>))
     /\ SameWay([k |-> "cmm", n |-> 1, m |-> 2, ps |-> <<g>>], T("and", <<g, T("optional", <<g>>)>>))
     /\ Alike([k |-> "count", n |-> 3, ps |-> <<g>>], [k |-> "cmm", n |-> 0, m |-> 3, ps |-> <<g>>])
     /\ \A q \in {TokP("b"), L(<<"b", "a">>, "ba")} :
          /\ SameWay(T("sep_by1", <<g, q>>), T("and", <<g, T("many", <<T("with", <<q, g>>)>>)>>))
          /\ Alike(T("sep_by", <<g, q>>), T("or", <<T("sep_by1", <<g, q>>), [k |-> "many", ps |-> <<[k |-> "unexpected", t |-> "x"]>>]>>))
          /\ SameWay(T("chainl1", <<g, q>>), T("sep_by1", <<g, q>>))
          /\ SameWay(T("sep_end_by1", <<g, q>>),
                     T("and", <<g, T("optional", <<T("with", <<q, T("sep_end_by", <<g, q>>)>>)>>)>>))
          /\ \A P \in BOOLEAN : Ok(T("sep_by1", <<g, q>>), P) /\ Ok(T("sep_end_by1", <<g, q>>), P) =>
               Parse(T("sep_end_by1", <<g, q>>), C(P), 1).p >= Parse(T("sep_by1", <<g, q>>), C(P), 1).p
     /\ \A q \in Some : Alike(T("take_until", <<q>>), T("repeat_until", <<[k |-> "any"], q>>))
\* known: a silenced parser also loses what it reports itself where it did not commit
RECURSIVE Quiet(_)
Quiet(q) == q.k \notin {"unexpected", "message"} /\ \A x \in 1..Len(Kids(q)) : Quiet(Kids(q)[x])
LabelLaws_ ==
  LET e == [k |-> "expected", t |-> "l", ps |-> <<g>>]
      m == [k |-> "message", t |-> "m", ps |-> <<g>>]
      s == T("silent", <<g>>)
  IN /\ Alike(e, g) /\ Alike(m, g) /\ Alike(s, g)
     /\ \A P \in BOOLEAN :
          LET y == FullP(g, C(P), 1)
              F(q) == FullP(q, C(P), 1).e
              Es(q) == {x \in F(q).s : x[1] = "E"}
          IN ~IsOk(y) =>
               /\ F(e).p = y.e.p /\ F(m).p = y.e.p /\ F(s).p = y.e.p
               /\ F(m).s = y.e.s \cup {Msg("m")}
               /\ Es(s) = {}
               /\ Quiet(g) => F(s).s = {x \in y.e.s : x[1] # "E"}
               /\ y.r = "CE" => F(e) = y.e
               /\ y.r = "PE" => ELab("l") \in F(e).s /\ {x \in F(e).s : x[1] # "E"} = {x \in y.e.s : x[1] # "E"}
Law(name, holds) == holds \/ PrintT(<<"LAW", name, ToJson([g |-> g, i |-> i])>>) = FALSE
Sane == Law("Sane", Sane_)
Stable == Law("Stable", Stable_)
ChoiceLaws == Law("ChoiceLaws", ChoiceLaws_)
LookLaws == Law("LookLaws", LookLaws_)
SeqLaws == Law("SeqLaws", SeqLaws_)
RepeatLaws == Law("RepeatLaws", RepeatLaws_)
LabelLaws == Law("LabelLaws", LabelLaws_)
=============================================================================
