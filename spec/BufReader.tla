----------------------------- MODULE BufReader -----------------------------
(***************************************************************************)
(* A buffered reader between a reader that delivers its bytes in pieces,    *)
(* fails and blocks, and someone who reads, fills and consumes, decodes and *)
(* writes.  `got` bytes have come from the reader and `gave` of them have   *)
(* been delivered; the bytes between are buffered.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES got, gave
bvars == <<got, gave>>
BInit == got = 0 /\ gave = 0

\* y: an operation with its answer; y.in: what the inner reader did during it
RECURSIVE GotIn(_)
GotIn(s) == IF s = <<>> THEN 0 ELSE (IF Head(s).a = "read" THEN Head(s).n ELSE 0) + GotIn(Tail(s))
Last(s) == IF s = <<>> THEN "none" ELSE s[Len(s)].a
Ended(s) == s # <<>> /\ s[Len(s)].a = "read" /\ s[Len(s)].n = 0 /\ s[Len(s)].room
Buffered(src, y) == y.buf = SubSeq(src, gave' + 1, got')

\* nothing is lost where it fails or blocks, and it does so only where the reader did
Stopped(y) == gave' = gave /\ ((y.r = "err" /\ Last(y.in) = "fail") \/ (y.r = "pend" /\ Last(y.in) = "pending"))
Deliver(src, y, k) == y.v = SubSeq(src, gave + 1, gave + k) /\ gave' = gave + k
\* reading up to n bytes; what is buffered is never withheld
ReadOp(src, y) ==
  \/ Stopped(y) /\ got' = gave
  \/ /\ y.r = "ok" /\ Len(y.v) <= y.n /\ gave + Len(y.v) <= got'
     /\ Deliver(src, y, Len(y.v))
     /\ Len(y.v) = 0 => y.n = 0 \/ (got' = gave /\ Ended(y.in))
FillOp(src, y) ==
  \/ Stopped(y) /\ got' = gave
  \/ /\ y.r = "ok" /\ y.v = SubSeq(src, gave + 1, got') /\ gave' = gave
     /\ y.v = <<>> => Ended(y.in)
ConsumeOp(src, y) == y.n <= got - gave /\ y.in = <<>> /\ gave' = gave + y.n
BufferOp(src, y) == y.in = <<>> /\ y.v = SubSeq(src, gave + 1, got) /\ gave' = gave
\* a message of n bytes through a decoder without a buffer of its own
DecodeOp(src, y) ==
  \/ Stopped(y) /\ got' - gave < y.n
  \/ y.r = "n" /\ got' - gave < y.n /\ Ended(y.in) /\ gave' = gave
  \/ y.r = "ok" /\ gave + y.n <= got' /\ Deliver(src, y, y.n)
\* writes are not buffered: the inner writer gets exactly what is reported as written
WriteOp(y) ==
  /\ gave' = gave
  /\ \/ y.v = <<>> /\ y.in = <<>> /\ y.r = "n" /\ y.k = 0
     \/ Len(y.in) = 1 /\ y.r = "pend" /\ y.in[1].a = "wpend"
     \/ Len(y.in) = 1 /\ y.r = "err" /\ y.in[1].a = "wfail"
     \/ Len(y.in) = 1 /\ y.r = "n" /\ y.in[1].a = "wrote" /\ y.in[1].v = SubSeq(y.v, 1, y.k)
PassOp(y) ==
  /\ gave' = gave /\ Len(y.in) = 1 /\ y.in[1].a = y.op
  /\ y.r = (CASE y.in[1].k = 0 -> "pend" [] y.in[1].k = 1 -> "err" [] OTHER -> "n")

BufOp(src, y) ==
  /\ got' = got + GotIn(y.in) /\ got' <= Len(src)
  /\ CASE y.op = "read" -> ReadOp(src, y)
       [] y.op = "fill" -> FillOp(src, y)
       [] y.op = "consume" -> ConsumeOp(src, y)
       [] y.op = "buffer" -> BufferOp(src, y)
       [] y.op = "decode" -> DecodeOp(src, y)
       [] y.op = "write" -> WriteOp(y)
       [] y.op \in {"flush", "shutdown"} -> PassOp(y)
       [] OTHER -> FALSE
  /\ Buffered(src, y)
=============================================================================
