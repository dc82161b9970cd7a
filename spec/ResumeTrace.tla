----------------------------- MODULE ResumeTrace -----------------------------
(***************************************************************************)
(* Validates recorded decoding histories against Resume.  Every line of the *)
(* trace is one history: a grammar, the whole input, and for every call how *)
(* much had been delivered and what the implementation answered.            *)
(* MSGS selects the messages whose answers are compared: "first", "later"   *)
(* or "all".                                                                *)
(***************************************************************************)
EXTENDS Resume, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 32
VARIABLES l, k
vars == <<fed, base, msgs, phase, l, k>>
Line == Trace[l]
Init == l \in 1..W /\ l <= Len(Trace) /\ k = 1 /\ RInit
\* the answer to the call is the one which the action describes
Agrees(y) ==
  LET m == Outcome(Line.g, Line.i, y.n, y.P, Line.b, base)
      \* `decode_tokio` takes an empty buffer at the end of the input for the end of the messages
      done == Line.t /\ ~y.P /\ ~IsOk(m) /\ IsEoi(m.e) /\ y.n + 1 = (IF k = 1 THEN 1 ELSE Line.st[k - 1].p)
      \* an error type without details may have kept another reason than the end of input
      other == Line.pl /\ \E s \in m.e.s : s[1] # "E" /\ s # <<"U", "s", "end of input">>
      a == IF done /\ ~(other /\ y.r = "err") THEN "need" ELSE Answer(m, y.P)
  IN /\ y.r = a
     /\ a = "ok" => y.v = m.v /\ y.p = m.p
     /\ a # "need" => y.k = m.r         \* committed or not, as a parser that saw it all at once
     /\ y.p >= base /\ y.p <= y.n + 1    \* consumed no more than there was
Compared == CASE IOEnv.MSGS = "first" -> msgs = 0 [] IOEnv.MSGS = "later" -> msgs > 0 [] OTHER -> TRUE
Step ==
  /\ k <= Len(Line.st)
  /\ DecodeStep(Line.g, Line.i, Line.b, Line.st[k].n, Line.st[k].P)
  /\ k' = k + 1 /\ l' = l
NextLine ==
  /\ k > Len(Line.st) \/ (k > 1 /\ phase = "err")
  /\ l + W <= Len(Trace)
  /\ l' = l + W /\ k' = 1
  /\ fed' = 0 /\ base' = 1 /\ msgs' = 0 /\ phase' = "wait"
\* a line which disagreed is left: what follows has another state
Wrong == k <= Len(Line.st) /\ phase # "err" /\ ~Agrees(Line.st[k])
Skip1 == Wrong /\ l + W <= Len(Trace) /\ l' = l + W /\ k' = 1 /\ fed' = 0 /\ base' = 1 /\ msgs' = 0 /\ phase' = "wait"
Next == IF Wrong THEN Skip1 ELSE Step \/ NextLine
Spec == Init /\ [][Next]_vars
Conforms ==
  Wrong => IF Compared
           THEN PrintT(<<"REJECT", ToJson([line |-> l, run |-> k,
                  model |-> Outcome(Line.g, Line.i, Line.st[k].n, Line.st[k].P, Line.b, base)])>>) = FALSE
           ELSE PrintT("SKIPPED")
\* every line was taken to its end
Seen == IF k = 1 THEN l ELSE 0
=============================================================================
