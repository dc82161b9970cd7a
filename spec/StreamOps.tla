----------------------------- MODULE StreamOps -----------------------------
(***************************************************************************)
(* A stream: a sequence of tokens and a cursor.  Checkpoints are cursors.   *)
(* Every kind of stream in combine is one of these; the kinds differ in the *)
(* unit of sizes and positions, in whether more input may come, and, for    *)
(* streams that buffer what a reader or iterator gave, in how far back a    *)
(* reset may go: `look` tokens behind the furthest token that was read is   *)
(* guaranteed, and beyond that the stream may report that it cannot, but    *)
(* must never give wrong tokens.                                            *)
(***************************************************************************)
EXTENDS Positions

VARIABLES
  cur,     \* the next token's index
  saved,   \* checkpoints
  read,    \* one more than the number of tokens taken from the source
  down     \* the number of failures of the source that were reported
svars == <<cur, saved, read, down>>
SInit == cur = 1 /\ saved = <<>> /\ read = 1 /\ down = 0

RECURSIVE RunOf(_, _, _)
RunOf(i, set, p) == IF p > Len(i) \/ i[p] \notin set THEN p ELSE RunOf(i, set, p + 1)
\* the cursor after taking n units: [k, p] with k = "ok", "eoi" or "mid" (inside a token)
TakeN(x, n) ==
  IF x.u = "one"
  THEN IF cur + n > Len(x.i) + 1 THEN [k |-> "eoi", p |-> cur] ELSE [k |-> "ok", p |-> cur + n]
  ELSE Skip([i |-> x.i, b |-> FALSE], cur, n)
Units(x, a, b) == IF x.u = "one" THEN b - a ELSE WidthS(x.i, a, b - 1)
Offset(x, p) == IF x.u = "one" THEN x.sz * (p - 1) ELSE WidthS(x.i, 1, p - 1)
\* the source is about to fail: x.f holds where it does
Fails(x) == "f" \in DOMAIN x /\ down < Len(x.f) /\ x.f[down + 1] = read
Guaranteed(x, p) == read - p <= x.look

\* x: the stream, y: an operation with its answer
Moves(to) == cur' = to /\ read' = (IF to > read THEN to ELSE read) /\ UNCHANGED <<saved, down>>
Stays == UNCHANGED svars
Uncons1(x, y) ==
  /\ y.op = "uncons"
  /\ IF cur = read /\ Fails(x)
     \* reported as what it is, once, and then the source goes on
     THEN y.r = "io" /\ down' = down + 1 /\ UNCHANGED <<cur, saved, read>>
     ELSE IF cur > Len(x.i) THEN y.r = "eoi" /\ Stays
     ELSE \/ y.r = "ok" /\ y.v = <<x.i[cur]>> /\ Moves(cur + 1)
          \/ y.r = "err" /\ cur < read /\ ~Guaranteed(x, cur) /\ Stays
Range1(x, y) ==
  /\ y.op = "range"
  /\ LET t == TakeN(x, y.n)
     IN IF t.k = "ok" THEN y.r = "ok" /\ y.v = SubSeq(x.i, cur, t.p - 1) /\ y.o = Offset(x, cur) /\ Moves(t.p)
        ELSE y.r = (IF t.k = "eoi" THEN "eoi" ELSE "err") /\ Stays
\* each token is asked for once, and the first that is refused ends the run
Run1(x, y) ==
  /\ y.op \in {"while", "while1"}
  /\ LET q == RunOf(x.i, RangeOf(y.s), cur)
     IN /\ y.asked = (q - cur) + (IF q > Len(x.i) THEN 0 ELSE 1)
        /\ IF y.op = "while1" /\ q = cur THEN y.r = "PE" /\ Stays
           ELSE /\ y.r = (IF y.op = "while" THEN "ok" ELSE "CO")
                /\ y.v = SubSeq(x.i, cur, q - 1) /\ y.o = Offset(x, cur) /\ Moves(q)
Save1(x, y) == y.op = "save" /\ y.r = "ok" /\ saved' = Append(saved, cur) /\ UNCHANGED <<cur, read, down>>
Reset1(x, y) ==
  /\ y.op = "reset"
  /\ \/ y.r = "ok" /\ cur' = saved[y.k] /\ UNCHANGED <<saved, read, down>>
     \/ y.r = "err" /\ ~Guaranteed(x, saved[y.k]) /\ Stays
Dist1(x, y) ==
  /\ y.op = "dist" /\ Stays
  /\ saved[y.k] <= cur => y.n = Units(x, saved[y.k], cur)
Rest1(x, y) == y.op = "rest" /\ y.v = SubSeq(x.i, cur, Len(x.i)) /\ y.o = Offset(x, cur) /\ Stays
Pos1(x, y) == y.op = "pos" /\ (Guaranteed(x, cur) => y.v = <<PosOf(x.pt, x.i, cur)>>) /\ Stays
Partial1(x, y) == y.op = "partial" /\ y.r = (IF x.P THEN "yes" ELSE "no") /\ Stays
OpStep(x, y) == Uncons1(x, y) \/ Range1(x, y) \/ Run1(x, y) \/ Save1(x, y) \/ Reset1(x, y) \/ Dist1(x, y)
                \/ Rest1(x, y) \/ Pos1(x, y) \/ Partial1(x, y)
=============================================================================
