-------------------------------- MODULE MCSpans -------------------------------
(***************************************************************************)
(* Classification and overlap for all small tables (lengths in ticks of a  *)
(* 1 MHz clock), said in two ways; and the windows of the protocols over a *)
(* range of frequencies.                                                   *)
(***************************************************************************)
EXTENDS IrSpans, TLC

CONSTANTS MAXUS, TOLS, N, FLO, FHI, STEP
VARIABLES us, tol, f

Init == \/ us \in [1..N -> 0..MAXUS] /\ tol \in [1..N -> TOLS] /\ f = 1000000
        \/ us = <<>> /\ tol = <<>> /\ f \in {FLO + k * STEP : k \in 0..7}
Next == us = <<>> /\ f + 8 * STEP <= FHI /\ f' = f + 8 * STEP /\ UNCHANGED <<us, tol>>
Spec == Init /\ [][Next]_<<us, tol, f>>

First(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
Lengths(ws) == 0..(2 * MAXUS + 2)

Direct ==
  us # <<>> => \E ws \in {SpansOf(us, tol, f)} :
    /\ \A d \in Lengths(ws) : ClassOf(ws, d) = First({k \in 1..N : Accepts(us[k], tol[k], f, d)})
    /\ OverlapOf(ws) = (\E d \in Lengths(ws) : Cardinality({k \in 1..N : Accepts(us[k], tol[k], f, d)}) > 1)

(* The steps describe the class everywhere.                                *)
AtSteps(st, d) == LET S == {k \in 1..Len(st) : st[k][1] <= d}
                  IN st[CHOOSE k \in S : \A j \in S : j <= k][2]
StepsRight ==
  us # <<>> => \E ws \in {SpansOf(us, tol, f)} : \E st \in {Steps(ws)} :
    \A d \in Lengths(ws) : AtSteps(st, d) = ClassOf(ws, d)

ProtocolWindows ==
  us = <<>> => \A p \in Protos : \E ws \in {ProtoSpans(p, f)} :
    /\ ClassOf(ws, 0) = 0
    /\ \A k \in 1..Len(ws) : ClassOf(ws, ws[k].base) = k
    /\ \A k \in 1..Len(ws) : \A d \in {ws[k].lo - 1, ws[k].lo, ws[k].hi, ws[k].hi + 1} :
         In(ws[k], d) = Accepts(Nominal(p)[k], Tolerance(p)[k], f, d)
    /\ \A d \in {0} \cup UNION {{ws[k].lo - 1, ws[k].lo, ws[k].hi, ws[k].hi + 1} : k \in 1..Len(ws)} :
         ClassOf(ws, d) = Classify(Windows(p, f), d)
    /\ OverlapOf(ws) => p = "rc6"
===============================================================================
