--------------------------- MODULE BufReaderLaws ---------------------------
(***************************************************************************)
(* What the rules of BufReader guarantee, for every use of a small reader:  *)
(* whatever is done in whatever order, the delivered bytes are the first     *)
(* bytes of the source, each once, and the buffered ones come next; and      *)
(* there is always an answer that goes on until everything is delivered.     *)
(***************************************************************************)
EXTENDS BufReader
TheSource == <<"a", "b", "c", "d">>
CONSTANT Source
VARIABLE out
vars == <<got, gave, out>>
Parts == {SubSeq(Source, a, b) : a \in 1..(Len(Source) + 1), b \in 0..Len(Source)}
Ev(n) == [a |-> "read", n |-> n, room |-> TRUE]
Ins == {<<>>, <<[a |-> "fail"]>>, <<[a |-> "pending"]>>} \cup {<<Ev(n)>> : n \in 0..2} \cup {<<Ev(n), Ev(m)>> : n \in 1..2, m \in 0..2}
       \cup {<<Ev(n), [a |-> "fail"]>> : n \in 1..2} \cup {<<Ev(n), [a |-> "pending"]>> : n \in 1..2}
\* a reader reports its end only there, and gives no more than it has
Honest(s) == /\ got + GotIn(s) <= Len(Source)
             /\ \A k \in 1..Len(s) : s[k] = Ev(0) => k = Len(s) /\ got + GotIn(s) = Len(Source)
Answers == {"ok", "err", "pend", "n"}
Do(op, n, in, r, v) ==
  /\ Honest(in)
  /\ \E b \in Parts : BufOp(Source, [op |-> op, n |-> n, in |-> in, r |-> r, v |-> v, buf |-> b, k |-> 0])
  /\ out' = IF r = "ok" /\ op \in {"read", "decode"} THEN out \o v
            ELSE IF op = "consume" THEN out \o SubSeq(Source, gave + 1, gave + n) ELSE out
Init == BInit /\ out = <<>>
Some(op, n) == \E in \in Ins, r \in Answers, v \in Parts : Do(op, n, in, r, v)
Next == \E op \in {"read", "fill", "consume", "buffer", "decode"}, n \in 0..3 : Some(op, n)
\* the reader neither fails nor blocks for ever
Well == \E in \in Ins, v \in Parts : Do("read", 2, in, "ok", v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Well /\ gave' > gave)
InOrder == out = SubSeq(Source, 1, gave) /\ gave <= got /\ got <= Len(Source)
Answered == \A n \in 0..3 : ENABLED Some("read", n) /\ ENABLED Some("fill", n) /\ ENABLED Some("decode", n)
Everything == <>(gave = Len(Source))
=============================================================================
