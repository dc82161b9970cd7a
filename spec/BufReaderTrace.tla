-------------------------- MODULE BufReaderTrace --------------------------
(***************************************************************************)
(* Validates recorded uses of buffered readers against BufReader.           *)
(***************************************************************************)
EXTENDS BufReader, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 32
VARIABLES l, k
vars == <<got, gave, l, k>>
X == Trace[l]
Init == l \in 1..W /\ l <= Len(Trace) /\ k = 1 /\ BInit
Step == k <= Len(X.st) /\ BufOp(X.src, X.st[k]) /\ X.st[k].at = got' /\ k' = k + 1 /\ l' = l
NextLine ==
  /\ k > Len(X.st)
  /\ l + W <= Len(Trace)
  /\ l' = l + W /\ k' = 1 /\ got' = 0 /\ gave' = 0
Next == Step \/ NextLine
Spec == Init /\ [][Next]_vars
Conforms ==
  /\ k <= Len(X.st) /\ ~ENABLED Step => PrintT(<<"REJECT", ToJson([line |-> l, run |-> k, got |-> got, gave |-> gave])>>) = FALSE
  /\ k > Len(X.st) /\ X.end # got => PrintT(<<"REJECT", ToJson([line |-> l, run |-> Len(X.st), got |-> got, gave |-> gave])>>) = FALSE
=============================================================================
