------------------------------ MODULE IrContract ------------------------------
(***************************************************************************)
(* The decoder as its user sees it: event, command and reset in any order. *)
(***************************************************************************)
EXTENDS IrDecoders

(* What asking for the command gives.                                      *)
Ask(p, d) == IF HasCmd(p, d) THEN <<"c", Fields(p, d.buf, IsRep(d), d.tog)>> ELSE <<>>

(* A new decoder that has been told of the frame d remembers.              *)
Renewed(p, d) ==
  IF p \in NecFamily /\ d.ok THEN [DecInit(p) EXCEPT !.buf = d.buf, !.ok = TRUE] ELSE DecInit(p)

StateNo(d) == CASE DecState(d) = "Idle" -> 0 [] DecState(d) = "Receiving" -> 1
                [] DecState(d) = "Done" -> 2 [] DecState(d) = "Data" -> 3 [] OTHER -> 4
===============================================================================
