------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Decoders on inputs of thousands of bytes.  What the parser would find is  *)
(* given as the list `ms` of messages, each the offset and length of its     *)
(* contents and the offset behind it; the decoding loop is that of Decoder,  *)
(* with "needs more input" being: the next message is not there in full.     *)
(* `nl` are the offsets of newlines, for positions.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 32
VARIABLES l, k, fed, msgs, phase, eof, failed, blocked
dvars == <<fed, msgs, phase, eof, failed, blocked>>
vars == <<l, k, fed, msgs, phase, eof, failed, blocked>>
Line == Trace[l]
Ev == Line.st[k]
Fresh == fed = 0 /\ msgs = 0 /\ phase = "wait" /\ eof = FALSE /\ failed = FALSE /\ blocked = FALSE
Init == l \in 1..W /\ l <= Len(Trace) /\ k = 1 /\ Fresh
\* behind the messages returned so far
Base == IF msgs = 0 THEN 0 ELSE Line.ms[msgs].end
Answer == IF msgs < Len(Line.ms) /\ fed >= Line.ms[msgs + 1].end THEN "ok"
          ELSE IF eof THEN "err" ELSE "need"
Running == phase # "err" /\ ~failed
Before(q) == {x \in 1..Len(Line.nl) : Line.nl[x] < q}
PosIs(q, y) == LET n == Cardinality(Before(q))
               IN y.line = n + 1 /\ y.col = (IF n = 0 THEN q + 1 ELSE q - Line.nl[n])
\* the buffer holds what was read and not consumed
BufIs(q, y) == q <= fed /\ y.held /\ y.buf = fed - q
Held(y) == LET q == fed - y.buf IN q >= Base /\ BufIs(q, y) /\ PosIs(q, y)
Allowed(y) ==
  CASE y.a = "read" -> Running /\ Answer = "need" /\ y.room /\ y.n <= Line.total - fed /\ (y.n = 0 => fed = Line.total)
    [] y.a \in {"fail", "pending"} -> Running /\ Answer = "need"
    [] y.a = "ok" -> /\ Running /\ Answer = "ok"
                     /\ LET m == Line.ms[msgs + 1]
                        IN y.off = m.off /\ y.len = m.len /\ BufIs(m.end, y) /\ PosIs(m.end, y)
    [] y.a = "err" -> Running /\ Answer = "err"
    [] y.a = "io" -> failed /\ Held(y)
    [] y.a = "cancel" -> blocked /\ Held(y)
    [] OTHER -> FALSE
Wrong == k <= Len(Line.st) /\ ~Allowed(Ev)
Step ==
  /\ k <= Len(Line.st)
  /\ CASE Ev.a = "read" -> fed' = fed + Ev.n /\ eof' = (Ev.n = 0) /\ blocked' = FALSE /\ UNCHANGED <<msgs, phase, failed>>
       [] Ev.a = "fail" -> failed' = TRUE /\ blocked' = FALSE /\ UNCHANGED <<fed, msgs, phase, eof>>
       [] Ev.a = "pending" -> blocked' = TRUE /\ UNCHANGED <<fed, msgs, phase, eof, failed>>
       [] Ev.a = "ok" -> msgs' = msgs + 1 /\ phase' = "ok" /\ UNCHANGED <<fed, eof, failed, blocked>>
       [] Ev.a = "err" -> phase' = "err" /\ UNCHANGED <<fed, msgs, eof, failed, blocked>>
       [] Ev.a = "io" -> failed' = FALSE /\ UNCHANGED <<fed, msgs, phase, eof, blocked>>
       [] Ev.a = "cancel" -> blocked' = FALSE /\ UNCHANGED <<fed, msgs, phase, eof, failed>>
  /\ k' = k + 1 /\ l' = l
NextLine ==
  /\ l + W <= Len(Trace)
  /\ l' = l + W /\ k' = 1
  /\ fed' = 0 /\ msgs' = 0 /\ phase' = "wait" /\ eof' = FALSE /\ failed' = FALSE /\ blocked' = FALSE
Next == IF Wrong \/ k > Len(Line.st) THEN NextLine ELSE Step
Spec == Init /\ [][Next]_vars
Conforms ==
  Wrong => PrintT(<<"REJECT", ToJson([line |-> l, run |-> k, fed |-> fed, msgs |-> msgs, eof |-> eof,
                                      failed |-> failed, answer |-> Answer])>>) = FALSE
=============================================================================
