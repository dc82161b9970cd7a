------------------------------ MODULE Decoder ------------------------------
(***************************************************************************)
(* The decoding loop (decode! and its asynchronous siblings): a decoder     *)
(* owns a buffer, a partial state and a position, and alternates between    *)
(* calling the parser on what it has and reading more from a reader, which  *)
(* may deliver any part of its data, fail, or block.                        *)
(*                                                                          *)
(* A call of the loop returns a message, a parse error, or the reader's     *)
(* error; a blocked asynchronous call may also be abandoned.  After an I/O  *)
(* error or an abandoned call the next call carries on where this one was.  *)
(***************************************************************************)
EXTENDS Resume

VARIABLES
  eof,      \* the reader has said that there is no more input
  failed,   \* the reader has failed in the current call
  blocked   \* the reader has blocked in the current call
dvars == <<fed, base, msgs, phase, eof, failed, blocked>>

DInit == RInit /\ eof = FALSE /\ failed = FALSE /\ blocked = FALSE
\* what the parser makes of the buffer
Now(g, i, b) == Outcome(g, i, fed, ~eof, b, base)
Ans(g, i, b) == Answer(Now(g, i, b), ~eof)
Running == phase # "err" /\ ~failed
\* nothing is read unless the parser needs it
Read(g, i, b, n) ==
  /\ Running /\ Ans(g, i, b) = "need"
  /\ n <= Len(i) - fed
  /\ n = 0 => fed = Len(i)
  /\ fed' = fed + n /\ eof' = (n = 0) /\ blocked' = FALSE
  /\ UNCHANGED <<base, msgs, phase, failed>>
Fail(g, i, b) ==
  /\ Running /\ Ans(g, i, b) = "need"
  /\ failed' = TRUE /\ blocked' = FALSE
  /\ UNCHANGED <<fed, base, msgs, phase, eof>>
Block(g, i, b) ==
  /\ Running /\ Ans(g, i, b) = "need"
  /\ blocked' = TRUE
  /\ UNCHANGED <<fed, base, msgs, phase, eof, failed>>
RetOk(g, i, b) ==
  /\ Running /\ Ans(g, i, b) = "ok"
  /\ base' = Now(g, i, b).p /\ msgs' = msgs + 1 /\ phase' = "ok"
  /\ UNCHANGED <<fed, eof, failed, blocked>>
RetErr(g, i, b) ==
  /\ Running /\ Ans(g, i, b) = "err"
  /\ phase' = "err"
  /\ UNCHANGED <<fed, base, msgs, eof, failed, blocked>>
RetIo ==
  /\ failed /\ failed' = FALSE
  /\ UNCHANGED <<fed, base, msgs, phase, eof, blocked>>
Cancel ==
  /\ blocked /\ blocked' = FALSE
  /\ UNCHANGED <<fed, base, msgs, phase, eof, failed>>
\* lines and columns (one based) behind the first n tokens
RECURSIVE LineCol(_, _, _)
LineCol(i, n, lc) ==
  IF n = 0 THEN lc
  ELSE LET x == LineCol(i, n - 1, lc)
       IN IF i[n] = "\n" THEN <<x[1] + 1, 1>> ELSE <<x[1], x[2] + 1>>
At(i, p) == LineCol(i, p - 1, <<1, 1>>)
=============================================================================
