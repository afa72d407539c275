-------------------------------- MODULE MCPhase -------------------------------
(***************************************************************************)
(* Sampling a nominal pulse at any phase gives its exact length in ticks,  *)
(* rounded down or up.  Both must be recognised as the right class, at     *)
(* every frequency.                                                        *)
(***************************************************************************)
EXTENDS IrTiming, FiniteSets

CONSTANTS FLO, FHI, STEP

VARIABLE f

Init == f \in {FLO + k * STEP : k \in 0..7}
Next == f + 8 * STEP <= FHI /\ f' = f + 8 * STEP
Spec == Init /\ [][Next]_f


PhaseOK ==
  \A p \in {"nec", "samsung", "sbp", "denon", "rc5", "rc6"} :
    LET w == Windows(p, f) IN
    \A c \in 1..Len(w) :
      /\ Classify(w, Ticks(Nominal(p)[c], f)) = c
      /\ Classify(w, Ticks(Nominal(p)[c], f) + 1) = c
===============================================================================
