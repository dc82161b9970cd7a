----------------------------- MODULE Positions -----------------------------
(***************************************************************************)
(* How streams write down positions.                                        *)
(***************************************************************************)
EXTENDS Combine
\* lines and columns, one based, of the token at p
RECURSIVE LineCol(_, _, _, _)
LineCol(i, p, x, lc) ==
  IF x >= p THEN lc
  ELSE LineCol(i, p, x + 1, IF i[x] = "\n" THEN <<lc[1] + 1, 1>> ELSE <<lc[1], lc[2] + 1>>)
LC(i, p) == LET q == LineCol(i, p, 1, <<1, 1>>) IN ToString(q[1]) \o ":" \o ToString(q[2])
\* how a kind of stream writes the position of the token at p
PosOf(t, i, p) ==
  CASE t = "off" -> ToString(WidthS(i, 1, p - 1))
    [] t \in {"off1", "idx"} -> ToString(p - 1)
    [] t = "off4" -> ToString(4 * (p - 1))
    [] t = "lc" -> LC(i, p)
    [] t = "soff" -> ToString(WidthS(i, 1, p - 1)) \o "-" \o ToString(WidthS(i, 1, p - 1))
    [] t = "sidx" -> ToString(p - 1) \o "-" \o ToString(p - 1)
    [] t = "slc" -> LC(i, p) \o "-" \o LC(i, p)
=============================================================================
