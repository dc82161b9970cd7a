--------------------------- MODULE ErrorOpsTrace ---------------------------
(***************************************************************************)
(* Validates recorded sequences of operations on error values against       *)
(* ErrorOps: three registers of one type.                                   *)
(***************************************************************************)
EXTENDS ErrorOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 32
VARIABLE l
Init == l \in 1..W /\ l <= Len(Trace)
Next == l + W <= Len(Trace) /\ l' = l + W
Spec == Init /\ [][Next]_l

Sees(ty, e, y) == y.s = e.s /\ y.c = e.c /\ y.p = e.p /\ y.eoi = Eoi(ty, e) /\ y.d = Text(ty, e)
After(ty, g, y) ==
  LET r == y.r e == g[r]
      Set(x) == [g EXCEPT ![r] = x]
  IN CASE y.op = "new" -> Set(Empty(ty, y.p))
       [] y.op = "from" -> Set(FromItem(ty, y.p, y.i))
       [] y.op = "add" -> Set(AddItem(ty, e, y.i))
       [] y.op = "setpos" -> Set(SetPos(ty, e, y.p))
       [] y.op = "merge" -> [g EXCEPT ![r] = MergeErr(ty, e, g[y.q]), ![y.q] = Empty(ty, 0)]
       [] y.op = "setexpected" -> Set(SetExpected(ty, e, y.i, y.a))
       [] y.op = "clear" -> Set(Clear(ty, e))
       [] y.op = "list" -> Set(FromList(y.p, y.a))
       [] y.op = "map" -> Set(MapErr(ty, e))
       [] y.op = "own" -> Set(Own(e, y.i))
       [] y.op \in {"into", "lost"} -> Set(Empty(ty, 0))
       [] OTHER -> g
RECURSIVE Run(_, _, _)
\* the first operation whose result differs, or 0
Run(x, g, k) ==
  IF k > Len(x.os) THEN 0
  ELSE LET y == x.os[k]
       IN IF y.op = "PANIC" THEN k
          ELSE LET h == After(x.ty, g, y)
               IN IF /\ Sees(x.ty, h[y.r], y.see)
                     /\ y.at = h[y.r].p
                     /\ y.op = "eq" => y.eq = SameErr(g[y.r], g[y.q])
                     /\ y.op = "into" => Sees(y.ty, IntoOther(x.ty, g[y.r], y.all, y.ty), y.got)
                  THEN Run(x, h, k + 1) ELSE k
First(x) == IF x.ty = "result"
            THEN LET bad == {k \in 1..Len(x.os) : x.os[k].got # ResultOp(x.os[k])}
                 IN IF bad = {} THEN 0 ELSE CHOOSE k \in bad : TRUE
            ELSE Run(x, [r \in 1..3 |-> Empty(x.ty, 0)], 1)
Conforms == LET f == First(Trace[l]) IN f # 0 => PrintT(<<"REJECT", ToJson([line |-> l, run |-> f])>>) = FALSE
=============================================================================
