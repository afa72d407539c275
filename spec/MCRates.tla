-------------------------------- MODULE MCRates -------------------------------
(***************************************************************************)
(* At every frequency: marks and spaces, each rounded to a tick either     *)
(* way, add up to a distance that a receiver of the same frequency puts in *)
(* the right class.                                                        *)
(***************************************************************************)
EXTENDS IrTiming

CONSTANTS FLO, FHI, STEP
VARIABLE f
Init == f \in {FLO + k * STEP : k \in 0..7}
Next == f + 8 * STEP <= FHI /\ f' = f + 8 * STEP
Spec == Init /\ [][Next]_f

Up(us) == {Ticks(us, f), Ticks(us, f) + 1}
Parts(p) == CASE p = "nec"     -> {<<9000, 4500, 1>>, <<560, 560, 3>>, <<560, 1690, 4>>}
              [] p = "samsung" -> {<<4500, 4500, 1>>, <<560, 560, 3>>, <<560, 1690, 4>>}
RatesOK ==
  /\ \A p \in {"nec", "samsung"} : \E w \in {Windows(p, f)} :
       \A x \in Parts(p) : \A a \in Up(x[1]), b \in Up(x[2]) : Classify(w, a + b) = x[3]
  /\ \A p \in {"rc5", "rc6"} : \E w \in {Windows(p, f)} :
       \A c \in {k \in 1..Len(w) : p = "rc6" => k # 5} : \A a \in Up(Nominal(p)[c]) : Classify(w, a) = c
===============================================================================
