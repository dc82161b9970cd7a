------------------------------- MODULE Resume -------------------------------
(***************************************************************************)
(* Decoding a growing input with one parser and one partial state: the      *)
(* caller delivers more and more of the input, calls the parser after each  *)
(* delivery, drops what was consumed, and keeps the state.  The parser      *)
(* answers that it needs more input, that it has a message, or that the     *)
(* input is wrong; after a message the next one begins where it ended.      *)
(*                                                                          *)
(* The design under test is that the partial state is invisible: each       *)
(* answer is the one which a parser without a history gives when it sees    *)
(* everything that was delivered of the current message at once.            *)
(***************************************************************************)
EXTENDS Combine

VARIABLES
  fed,    \* number of tokens delivered so far
  base,   \* where the current message begins
  msgs,   \* messages completed
  phase   \* "wait": for more input, "ok": a message was just completed, "err"
rvars == <<fed, base, msgs, phase>>

Ctx(i, n, P, b) == [i |-> SubSeq(i, 1, n), P |-> P, b |-> b]
\* what decode answers, from the result of a parse
Answer(m, P) == IF IsOk(m) THEN "ok" ELSE IF P /\ IsEoi(m.e) THEN "need" ELSE "err"
Outcome(g, i, n, P, b, from) == FullP(g, Ctx(i, n, P, b), from)

RInit == fed = 0 /\ base = 1 /\ msgs = 0 /\ phase = "wait"
\* n: tokens delivered after this delivery, P: more may follow
DecodeStep(g, i, b, n, P) ==
  /\ phase \in {"wait", "ok"}
  /\ n >= fed /\ n <= Len(i)
  /\ fed' = n
  /\ LET m == Outcome(g, i, n, P, b, base)
         a == Answer(m, P)
     IN /\ phase' = IF a = "need" THEN "wait" ELSE a
        /\ base' = IF a = "ok" THEN m.p ELSE base
        /\ msgs' = IF a = "ok" THEN msgs + 1 ELSE msgs
=============================================================================
