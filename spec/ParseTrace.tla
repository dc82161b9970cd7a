----------------------------- MODULE ParseTrace -----------------------------
(***************************************************************************)
(* Validates recorded parses against Combine.  Every line of the trace is   *)
(* one grammar term with what the implementation returned for some inputs.  *)
(* The lines are independent; W walkers take every W-th line.               *)
(* CMP selects what is compared: "outcome" (success or failure, whether     *)
(* input was committed, value, position), "value" (all that but the         *)
(* commitment), "errors" (place and content of the errors) or "all".        *)
(***************************************************************************)
EXTENDS Combine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 32
VARIABLE l
Init == l \in 1..W /\ l <= Len(Trace)
Next == l + W <= Len(Trace) /\ l' = l + W
Spec == Init /\ [][Next]_l

Expect(x, y) == LET c == [i |-> y.i, P |-> y.P, b |-> x.b]
                IN IF y.P \/ ("en" \in DOMAIN y /\ y.en = "state") THEN FullP(x.g, c, 1) ELSE Full(x.g, c, 1)
\* `parse`, `parse_with_state` and `easy_parse` tell success from failure only;
\* the second one uses a partial state
Result(m, y) == IF "en" \in DOMAIN y THEN IF IsOk(m) THEN "OK" ELSE "ERR" ELSE m.r
SameOutcome(m, y) == Result(m, y) = y.r /\ m.v = y.v /\ m.p = y.p
SameValue(m, y) == (IsOk(m) <=> y.r \in {"CO", "PO", "OK"}) /\ m.v = y.v /\ m.p = y.p
SameErrors(m, y) == m.e.p = y.ep /\ m.e.s = RangeOf(y.es)
Failed(y) == y.r \in {"CE", "PE", "ERR"}
Agrees(m, y) ==
  /\ y.r # "PANIC"
  /\ CASE IOEnv.CMP = "outcome" -> SameOutcome(m, y)
       [] IOEnv.CMP = "value" -> SameValue(m, y)
       [] IOEnv.CMP = "errors" -> Failed(y) /\ ~IsOk(m) => SameErrors(m, y)
       [] OTHER -> SameOutcome(m, y) /\ (IsOk(m) \/ SameErrors(m, y))
Rejects(x) == \E k \in 1..Len(x.rs) :
   LET y == x.rs[k] m == Expect(x, y)
   IN ~Agrees(m, y) /\ PrintT(<<"REJECT", ToJson([line |-> l, run |-> k, model |-> m])>>)
Conforms == ~Rejects(Trace[l])
=============================================================================
