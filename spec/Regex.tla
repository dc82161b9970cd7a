------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular expressions with the semantics of the `regex` crate (leftmost,   *)
(* alternatives and repetitions in order of preference), as the reference   *)
(* for the parsers of parser::regex.  A term is a record with k = "chr",    *)
(* "set", "nset", "cat", "alt", "star", "plus", "opt" (m = 1: lazy), "grp"  *)
(* (n: its number), "bol" or "eol"; what is repeated is never empty.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
In(t, s) == \E x \in 1..Len(s) : s[x] = t
\* the ends of matches of r beginning at p, the preferred one first: <<[p, g]>> with the groups g
RECURSIVE RxEnds(_, _, _, _, _)
RECURSIVE RxAll(_, _, _, _, _)
RECURSIVE RxStar(_, _, _, _, _)
\* continues each of the ends with r
RxAll(r, i, from, es, x) ==
  IF x > Len(es) THEN <<>> ELSE RxEnds(r, i, from, es[x].p, es[x].g) \o RxAll(r, i, from, es, x + 1)
RxStar(r, i, from, es, x) ==
  IF x > Len(es) THEN <<>>
  ELSE RxEnds([k |-> "star", m |-> r.m, ps |-> r.ps], i, from, es[x].p, es[x].g) \o RxStar(r, i, from, es, x + 1)
RxEnds(r, i, from, p, g) ==
  LET here == <<[p |-> p, g |-> g]>>
      next == <<[p |-> p + 1, g |-> g]>>
      yes == p <= Len(i)
  IN CASE r.k = "chr" -> IF yes /\ i[p] = r.c THEN next ELSE <<>>
       [] r.k = "set" -> IF yes /\ In(i[p], r.s) THEN next ELSE <<>>
       [] r.k = "nset" -> IF yes /\ ~In(i[p], r.s) THEN next ELSE <<>>
       [] r.k = "bol" -> IF p = from THEN here ELSE <<>>
       [] r.k = "eol" -> IF p = Len(i) + 1 THEN here ELSE <<>>
       [] r.k = "cat" -> RxAll(r.ps[2], i, from, RxEnds(r.ps[1], i, from, p, g), 1)
       [] r.k = "alt" -> RxEnds(r.ps[1], i, from, p, g) \o RxEnds(r.ps[2], i, from, p, g)
       [] r.k = "opt" -> LET es == RxEnds(r.ps[1], i, from, p, g) IN IF r.m = 1 THEN here \o es ELSE es \o here
       [] r.k = "plus" -> RxStar(r, i, from, RxEnds(r.ps[1], i, from, p, g), 1)
       [] r.k = "star" -> LET es == RxStar(r, i, from, RxEnds(r.ps[1], i, from, p, g), 1)
                          IN IF r.m = 1 THEN here \o es ELSE es \o here
       [] r.k = "grp" -> LET es == RxEnds(r.ps[1], i, from, p, g)
                         IN [x \in 1..Len(es) |-> [es[x] EXCEPT !.g[r.n] = <<p, es[x].p>>]]
\* the leftmost match at or after q in what follows `from`: [f, s, p, g]
RECURSIVE RxFind(_, _, _, _, _)
RxFind(r, i, from, q, n) ==
  IF q > Len(i) + 1 THEN [f |-> FALSE, s |-> 0, p |-> 0, g |-> <<>>]
  ELSE LET es == RxEnds(r, i, from, q, [x \in 1..n |-> <<>>])
       IN IF es = <<>> THEN RxFind(r, i, from, q + 1, n)
          ELSE [f |-> TRUE, s |-> q, p |-> es[1].p, g |-> es[1].g]
\* all matches one after another; an empty match right behind another one does not count
RECURSIVE RxMatches(_, _, _, _, _, _)
RxMatches(r, i, from, q, last, n) ==
  LET m == RxFind(r, i, from, q, n)
      m2 == IF m.f /\ m.s = m.p /\ m.p = last THEN RxFind(r, i, from, m.p + 1, n) ELSE m
  IN IF m2.f THEN <<m2>> \o RxMatches(r, i, from, m2.p, m2.p, n) ELSE <<>>
=============================================================================
