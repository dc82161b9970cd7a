--------------------------- MODULE StreamOpsTrace ---------------------------
(***************************************************************************)
(* Validates recorded sequences of stream operations against StreamOps.     *)
(***************************************************************************)
EXTENDS StreamOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 32
VARIABLES l, k
vars == <<cur, saved, read, down, l, k>>
X == Trace[l]
Init == l \in 1..W /\ l <= Len(Trace) /\ k = 1 /\ SInit
Step == k <= Len(X.st) /\ OpStep(X, X.st[k]) /\ k' = k + 1 /\ l' = l
NextLine ==
  /\ k > Len(X.st)
  /\ l + W <= Len(Trace)
  /\ l' = l + W /\ k' = 1 /\ cur' = 1 /\ saved' = <<>> /\ read' = 1 /\ down' = 0
Next == Step \/ NextLine
Spec == Init /\ [][Next]_vars
Conforms ==
  k <= Len(X.st) /\ ~ENABLED Step => PrintT(<<"REJECT", ToJson([line |-> l, run |-> k, cur |-> cur, read |-> read])>>) = FALSE
=============================================================================
