---------------------------- MODULE DecoderTrace ----------------------------
(* Validates recorded sessions of decoders against Decoder, one per line. *)
EXTENDS Decoder, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 32
VARIABLES l, k
vars == <<fed, base, msgs, phase, eof, failed, blocked, l, k>>
Line == Trace[l]
Ev == Line.st[k]
G == Line.g
I == Line.i
Init == l \in 1..W /\ l <= Len(Trace) /\ k = 1 /\ DInit
M == Now(G, I, Line.b)
A == Ans(G, I, Line.b)
\* the buffer holds what was read but not consumed: what follows q
BufIs(q, y) == q <= fed + 1 /\ y.buf = SubSeq(I, q, fed)
PosIs(q, y) == <<y.line, y.col>> = At(I, q)
\* where a waiting decoder is: it may have consumed a part of the message
Held(y) == LET q == fed + 1 - Len(y.buf) IN q >= base /\ q <= fed + 1 /\ BufIs(q, y) /\ PosIs(q, y)
Allowed(y) ==
  CASE y.a = "read" -> Running /\ A = "need" /\ y.room /\ y.n <= Len(I) - fed /\ (y.n = 0 => fed = Len(I))
    [] y.a \in {"fail", "pending"} -> Running /\ A = "need"
    [] y.a = "ok" -> Running /\ A = "ok" /\ y.v = M.v /\ BufIs(M.p, y) /\ PosIs(M.p, y)
    [] y.a = "err" -> Running /\ A = "err"
    [] y.a = "io" -> failed /\ Held(y)
    [] y.a = "cancel" -> blocked /\ Held(y)
    [] OTHER -> FALSE
Wrong == k <= Len(Line.st) /\ ~Allowed(Ev)
Step ==
  /\ k <= Len(Line.st)
  /\ CASE Ev.a = "read" -> Read(G, I, Line.b, Ev.n)
       [] Ev.a = "fail" -> Fail(G, I, Line.b)
       [] Ev.a = "pending" -> Block(G, I, Line.b)
       [] Ev.a = "ok" -> RetOk(G, I, Line.b)
       [] Ev.a = "err" -> RetErr(G, I, Line.b)
       [] Ev.a = "io" -> RetIo
       [] Ev.a = "cancel" -> Cancel
       [] OTHER -> FALSE
  /\ k' = k + 1 /\ l' = l
NextLine ==
  /\ l + W <= Len(Trace)
  /\ l' = l + W /\ k' = 1
  /\ fed' = 0 /\ base' = 1 /\ msgs' = 0 /\ phase' = "wait" /\ eof' = FALSE /\ failed' = FALSE /\ blocked' = FALSE
Next == IF Wrong \/ k > Len(Line.st) THEN NextLine ELSE Step
Spec == Init /\ [][Next]_vars
Conforms ==
  Wrong => PrintT(<<"REJECT", ToJson([line |-> l, run |-> k, fed |-> fed, base |-> base, eof |-> eof,
                                      failed |-> failed, answer |-> A, model |-> M])>>) = FALSE
=============================================================================
