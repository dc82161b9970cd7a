----------------------------- MODULE ErrorLaws -----------------------------
(***************************************************************************)
(* Laws of ErrorOps, for all small errors: merging is associative, keeps    *)
(* everything at the furthest position and nothing else, adds nothing to    *)
(* itself; no operation but clearing and labelling loses anything; no       *)
(* error type forgets the end of the input.                                 *)
(***************************************************************************)
EXTENDS ErrorOps
Items == {<<"U", "t", "a">>, <<"E", "t", "a">>, <<"M", "s", "x">>, <<"end", "", "">>}
Kept == {Keep(i) : i \in Items}
Lists == {<<>>} \cup {<<x>> : x \in Kept} \cup {<<x, y>> : x, y \in Kept}
NoRepeat == {s \in Lists : Len(s) < 2 \/ s[1] # s[2]}
Small == {[p |-> p, s |-> s, c |-> ""] : p \in 0..1, s \in NoRepeat}
VARIABLES a, b, c
Init == a \in Small /\ b = a /\ c = a
Next == b = a /\ c = a /\ b' \in Small /\ c' \in Small /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, c>>
M(x, y) == MergeErr("errors", x, y)
Later(x, y) == IF x < y THEN y ELSE x
Laws ==
  /\ M(M(a, b), c) = M(a, M(b, c))
  /\ M(a, a) = a
  /\ M(a, b).p = Later(a.p, b.p)
  /\ ToSet(M(a, b).s) = UNION {ToSet(e.s) : e \in {x \in {a, b} : x.p = Later(a.p, b.p)}}
  /\ \A i \in Items :
       /\ ToSet(AddItem("errors", a, i).s) = ToSet(a.s) \cup {Keep(i)}
       /\ AddItem("errors", AddItem("errors", a, i), i) = AddItem("errors", a, i)
       /\ Eoi("errors", a) => Eoi("errors", SetExpected("errors", a, <<"E", "s", "l">>, <<i>>))
       /\ \A ty \in Plain : LET e == FromItem(ty, 0, i) IN
            \A j \in Items : Eoi(ty, e) => Eoi(ty, AddItem(ty, e, j)) /\ Eoi(ty, SetExpected(ty, e, <<"E", "s", "l">>, <<j>>))
  \* the whole error carried over keeps the end of the input, and everything between collecting types
  /\ \A ty \in Plain : Eoi("errors", a) <=> Eoi(ty, IntoOther("errors", a, TRUE, ty))
  /\ IntoOther("errors", a, TRUE, "errors") = a
  /\ \A ty \in Plain, u \in Plain \cup {"errors"} : \A i \in Items :
       LET e == FromItem(ty, 0, i) IN Eoi(ty, e) <=> Eoi(u, IntoOther(ty, e, FALSE, u))
=============================================================================
