-------------------------------- MODULE IrSpans -------------------------------
(***************************************************************************)
(* Windows for an arbitrary table of nominal lengths and tolerances (what  *)
(* a protocol hands to the classifier), and classification as a step       *)
(* function.  An entry that comes to zero ticks is not in use.             *)
(***************************************************************************)
EXTENDS IrTiming, FiniteSets, SequencesExt

SpansOf(us, tol, f) == [k \in 1..Len(us) |-> Window(us[k], tol[k], f)]
ProtoSpans(p, f) == SpansOf(Nominal(p), Tolerance(p), f)

InUse(w) == w.hi > 0
ClassOf(ws, d) ==
  LET S == {k \in 1..Len(ws) : InUse(ws[k]) /\ In(ws[k], d)}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
OverlapOf(ws) ==
  \E j, k \in 1..Len(ws) : j < k /\ InUse(ws[j]) /\ InUse(ws[k])
                           /\ ws[j].lo <= ws[k].hi /\ ws[k].lo <= ws[j].hi

(* Where the class may change, and the class from there on.                *)
Breaks(ws) == SetToSortSeq({0} \cup {ws[k].lo : k \in 1..Len(ws)} \cup {ws[k].hi + 1 : k \in 1..Len(ws)},
                           LAMBDA a, b : a < b)
Steps(ws) == [k \in 1..Len(Breaks(ws)) |-> <<Breaks(ws)[k], ClassOf(ws, Breaks(ws)[k])>>]

(* The same said directly: the length deviates from the nominal one by at  *)
(* most tol percent of it, rounded up to a tick.                           *)
Deviation(d, base) == IF d < base THEN base - d ELSE d - base
Accepts(us, tol, f, d) ==
  LET base == Ticks(us, f) IN
  base > 0 /\ (Deviation(d, base) - 1) * 100 < base * tol
===============================================================================
