---------------------------- MODULE StreamsTrace ----------------------------
(***************************************************************************)
(* Validates parses of one grammar and input on many kinds of stream        *)
(* against Combine: a stream is a sequence of tokens, and nothing else      *)
(* about it shows but how it writes down positions and whether its error    *)
(* type keeps details.  CMP selects what is compared: "outcome" (all of     *)
(* value, commitment and consumption), "pos" (positions) or "errors".       *)
(***************************************************************************)
EXTENDS Positions, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 32
VARIABLE l
Init == l \in 1..W /\ l <= Len(Trace)
Next == l + W <= Len(Trace) /\ l' = l + W
Spec == Init /\ [][Next]_l

\* positions among the values: the specification counts tokens
RECURSIVE Translate(_, _, _, _)
Translate(v, t, i, x) ==
  IF x > Len(v) THEN <<>>
  ELSE LET ps == {p \in 1..(Len(i) + 1) : v[x] = "@" \o ToString(p)}
       IN <<IF ps = {} THEN v[x] ELSE "@" \o PosOf(t, i, CHOOSE p \in ps : TRUE)>> \o Translate(v, t, i, x + 1)
HasPos(v) == \E x \in 1..Len(v) : v[x] \in {"@" \o ToString(p) : p \in 1..60}
Expect(x, y) == LET c == [i |-> x.i, P |-> y.P, b |-> x.b]
                IN IF y.P THEN FullP(x.g, c, 1) ELSE Full(x.g, c, 1)
SameValue(x, m, y) == y.v = IF HasPos(m.v) THEN Translate(m.v, y.pt, x.i, 1) ELSE m.v
Agrees(x, m, y) ==
  /\ y.r = m.r
  /\ SameValue(x, m, y)
  /\ IsOk(m) => y.q = PosOf(y.pt, x.i, m.p)
  /\ y.e /\ IOEnv.CMP # "outcome" => y.ep = PosOf(y.pt, x.i, m.e.p)
  /\ y.e /\ IOEnv.CMP = "errors" => RangeOf(y.es) = m.e.s
Rejects(x) == \E k \in 1..Len(x.rs) :
   LET y == x.rs[k] m == Expect(x, y)
   IN ~Agrees(x, m, y) /\ PrintT(<<"REJECT", ToJson([line |-> l, run |-> k, model |-> m, pos |-> IF IsOk(m) THEN PosOf(y.pt, x.i, m.p) ELSE ""])>>)
Conforms == ~Rejects(Trace[l])
=============================================================================
