----------------------------- MODULE TraceBuilder -----------------------------
(***************************************************************************)
(* Recorded runs of built receivers: [calls, s, got, want] with s the      *)
(* settings of the directly constructed receiver that gave want.           *)
(***************************************************************************)
EXTENDS IrBuilder, Json, TLC
CONSTANTS Mode, File
VARIABLES i, ok
Runs == TLCEval(ndJsonDeserialize(File))
Judge(r) == Buildable(r.s) /\ r.s = Means(r.calls) /\ r.got = r.want
Init == i \in 1..Len(Runs) /\ ok = Judge(Runs[i])
Next == FALSE /\ UNCHANGED <<i, ok>>
Spec == Init /\ [][Next]_<<i, ok>>
Accepted == ok
===============================================================================
