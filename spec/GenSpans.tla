------------------------------- MODULE GenSpans -------------------------------
(***************************************************************************)
(* Tables with their classification, for replay: the protocols at FREQS,   *)
(* all small tables, and random tables of up to eight entries.             *)
(***************************************************************************)
EXTENDS IrSpans, TLC, Json

CONSTANTS FREQS, MAXUS, TOLS, N, RANDOM
VARIABLES done

Line(tag, f, us, tol) ==
  \E ws \in {SpansOf(us, tol, f)} :
    PrintT("CASE " \o ToJson([p |-> tag, f |-> f, us |-> us, tol |-> tol, steps |-> Steps(ws),
                              over |-> IF OverlapOf(ws) THEN 1 ELSE 0]))
RandTable(k, S) == TLCEval([j \in 1..k |-> RandomElement(S)])
Some(x) ==
  LET k == RandomElement(1..8) IN
  TLCEval([us |-> RandTable(k, {0, 0, 1, 7, 100} \cup {RandomElement(1..20000) : j \in 1..6} \cup {RandomElement(1..2000) : j \in 1..6}),
           tol |-> RandTable(k, {0, 1, 5, 7, 10, 12, 25, 33, 50, 75, 99, 100}),
           f |-> RandomElement(FREQS \cup {RandomElement(1000..1000000), RandomElement(10000..100000)})])

Init == done = FALSE
Next ==
  /\ ~done /\ done' = TRUE
  /\ \A p \in Protos, f \in FREQS : Line(p, f, Nominal(p), Tolerance(p))
  /\ \A us \in [1..N -> 0..MAXUS], tol \in [1..N -> TOLS] : Line("-", 1000000, us, tol)
  /\ \A k \in 1..RANDOM : \E t \in {Some(k)} : Line("-", t.f, t.us, t.tol)
Spec == Init /\ [][Next]_done
===============================================================================
