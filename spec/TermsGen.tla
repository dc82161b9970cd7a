------------------------------ MODULE TermsGen ------------------------------
(***************************************************************************)
(* Writes the terms about FOCUS (flat ones, or with DEEP=yes those two deep) *)
(* to GEN; the driver runs the real parsers on all small inputs of each and  *)
(* the trace specifications validate what they did.                          *)
(***************************************************************************)
EXTENDS Terms, Json, IOUtils, SequencesExt
VARIABLE n
T == SetToSeq(Of(IF IOEnv.DEEP = "yes" THEN DeepTerms(0) ELSE FlatTerms(0), Focus(IOEnv.FOCUS)))
Init == n = Len(T) /\ ndJsonSerialize(IOEnv.GEN, T)
Spec == Init /\ [][FALSE]_n
=============================================================================
