----------------------------- MODULE UnitTrace -----------------------------
(***************************************************************************)
(* The parsers of one token, on every token there is, and the parsers of     *)
(* numbers of a fixed size on arbitrary bytes.                               *)
(*                                                                           *)
(* A recorded class is the list `rs` of maximal ranges of the tokens that    *)
(* the parser takes (and yields); it refuses all others without consuming.   *)
(* `odd` lists tokens with which it did neither.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 32
VARIABLE l
Init == l \in 1..W /\ l <= Len(Trace)
Next == l + W <= Len(Trace) /\ l' = l + W
Spec == Init /\ [][Next]_l

Digits == <<<<48, 57>>>>
Upper == <<<<65, 90>>>>
Lower == <<<<97, 122>>>>
Spaces == << <<9, 13>>, <<32, 32>>, <<133, 133>>, <<160, 160>>, <<5760, 5760>>, <<8192, 8202>>, <<8232, 8233>>,
             <<8239, 8239>>, <<8287, 8287>>, <<12288, 12288>> >>
\* the part of Unicode that is written out here: Basic Latin and Latin-1
UpperL == Upper \o << <<192, 214>>, <<216, 222>> >>
LowerL == Lower \o << <<170, 170>>, <<181, 181>>, <<186, 186>>, <<223, 246>>, <<248, 255>> >>
LetterL == Upper \o Lower \o << <<170, 170>>, <<181, 181>>, <<186, 186>>, <<192, 214>>, <<216, 246>>, <<248, 255>> >>
AlnumL == Digits \o Upper \o Lower \o << <<170, 170>>, <<178, 179>>, <<181, 181>>, <<185, 186>>, <<188, 190>>,
                                         <<192, 214>>, <<216, 246>>, <<248, 255>> >>
\* the ranges cut off above m
Below(rs, m) == LET q == SelectSeq(rs, LAMBDA r : r[1] <= m)
                IN [k \in 1..Len(q) |-> <<q[k][1], IF q[k][2] < m THEN q[k][2] ELSE m>>]
Whole(k) == IF k = "byte" THEN <<<<0, 255>>>> ELSE <<<<0, 1114111>>>>
\* the classes that have the same members whatever the tables of Unicode say
Table(k, c) ==
  CASE c = "digit" -> Digits
    [] c = "newline" -> <<<<10, 10>>>>
    [] c = "tab" -> <<<<9, 9>>>>
    [] c = "crlf" -> <<<<10, 10>>, <<13, 13>>>>
    [] c = "oct_digit" -> <<<<48, 55>>>>
    [] c = "hex_digit" -> <<<<48, 57>>, <<65, 70>>, <<97, 102>>>>
    [] c \in {"space", "spaces"} -> IF k = "byte" THEN <<<<9, 10>>, <<12, 13>>, <<32, 32>>>> ELSE Spaces
    [] c = "any" -> Whole(k)
    [] c = "upper" -> Upper
    [] c = "lower" -> Lower
    [] c = "letter" -> Upper \o Lower
    [] c = "alpha_num" -> Digits \o Upper \o Lower
ByUnicode == {"upper", "lower", "letter", "alpha_num"}
Latin(c) == CASE c = "upper" -> UpperL [] c = "lower" -> LowerL [] c = "letter" -> LetterL [] c = "alpha_num" -> AlnumL

\* the parsers that are told the tokens
Elems(a) == {a[k] : k \in 1..Len(a)}
Told(x) ==
  CASE x.c \in {"char", "token", "one_of", "one_of3"} -> Elems(x.a)
    [] x.c = "none_of" -> (0..x.top) \ Elems(x.a)
    [] x.c \in {"satisfy", "satisfy_map"} -> x.a[1]..x.a[2]
RECURSIVE Size(_, _)
Size(rs, k) == IF k > Len(rs) THEN 0 ELSE rs[k][2] - rs[k][1] + 1 + Size(rs, k + 1)
IsSet(rs, S) ==
  /\ \A k \in 1..Len(rs) : rs[k][1] <= rs[k][2] /\ \A x \in rs[k][1]..rs[k][2] : x \in S
  /\ \A k \in 1..Len(rs) - 1 : rs[k][2] < rs[k + 1][1]
  /\ Size(rs, 1) = Cardinality(S)

Class(x) ==
  /\ x.odd = <<>>
  /\ IF x.c \in {"char", "token", "one_of", "one_of3", "none_of", "satisfy", "satisfy_map"} THEN IsSet(x.rs, Told(x))
     ELSE IF x.k = "char" /\ x.c \in ByUnicode THEN x.rs = x.std /\ Below(x.rs, 255) = Latin(x.c)
     ELSE x.rs = Table(x.k, x.c)

Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
\* `v` is the value, most significant byte first
Number(x) ==
  IF Len(x.bs) >= x.size
  THEN /\ x.r = "ok"
       /\ x.v = (IF x.big THEN SubSeq(x.bs, 1, x.size) ELSE Rev(SubSeq(x.bs, 1, x.size)))
       /\ x.left = Len(x.bs) - x.size
  \* what may still arrive is asked for by failing after the input was committed
  ELSE /\ x.r = IF x.part THEN "committed" ELSE "err"
       /\ x.left = IF x.part THEN Len(x.bs) ELSE x.left
Sizes == [be_u16 |-> 2, le_u16 |-> 2, be_i16 |-> 2, le_i16 |-> 2, be_u32 |-> 4, le_u32 |-> 4, be_i32 |-> 4, le_i32 |-> 4,
          be_f32 |-> 4, le_f32 |-> 4, be_u64 |-> 8, le_u64 |-> 8, be_i64 |-> 8, le_i64 |-> 8, be_f64 |-> 8, le_f64 |-> 8]
Accept(x) == IF x.u = "num" THEN x.size = Sizes[x.c] /\ Number(x) ELSE Class(x)
Conforms == ~Accept(Trace[l]) => PrintT(<<"REJECT", ToJson([line |-> l])>>) = FALSE
=============================================================================
