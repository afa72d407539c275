------------------------------- MODULE TraceDec -------------------------------
(***************************************************************************)
(* Runs of the real decoders: ev[k] = <<op, dt, state, command, again,     *)
(* state of a renewed decoder, its command>>.  op: 0/1 edge, 2 reset.      *)
(***************************************************************************)
EXTENDS IrContract, Json, TLC

CONSTANTS File, Mode

VARIABLES i, l, dec, ok

Runs == TLCEval(ndJsonDeserialize(File))
WinOf(k) == TLCEval(Windows(Runs[k].p, Runs[k].f))
Wins == TLCEval([k \in 1..Len(Runs) |-> WinOf(k)])

Init == i \in 1..Len(Runs) /\ l = 0 /\ ok = TRUE /\ dec = DecInit(Runs[i].p)

(* d: the decoder of the specification after the step.                     *)
Judge(p, d, e) ==
  /\ e[3] # 2 => e[4] = <<>>
  /\ e[3] = 2 => e[5] = e[4]
  /\ (e[3] = 2 /\ StateNo(d) = 2) => e[4] = Ask(p, d)
  /\ e[3] = e[6] /\ e[4] = e[7]

Step(p, e, d) == dec' = d /\ ok' = Judge(p, d, e)

Next ==
  /\ ok /\ l < Len(Runs[i].ev)
  /\ l' = l + 1 /\ i' = i
  /\ LET e == Runs[i].ev[l + 1] IN
     IF e[1] = 2 THEN Step(Runs[i].p, e, DecReset(Runs[i].p, dec))
     ELSE Step(Runs[i].p, e, DecStep(Runs[i].p, Wins[i], dec, e[1] = 1, e[2]))

Spec == Init /\ [][Next]_<<i, l, dec, ok>>
Accepted == ok
===============================================================================
