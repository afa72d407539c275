----------------------------- MODULE TraceCapture -----------------------------
(***************************************************************************)
(* Files and what the program printed about them: [unit, n, recs, hz,      *)
(* cmds] per line.  TLC reads the file with IrCapture.                     *)
(***************************************************************************)
EXTENDS IrCapture, Json

CONSTANT File
VARIABLES i, k, cap, out

Runs == TLCEval(ndJsonDeserialize(File))
P == "samsung"
W(j) == Windows(P, Resolution(Runs[j].unit, Runs[j].n))
vars == <<i, k, cap, out>>

Init == i = 1 /\ k = 1 /\ cap = CapInit(P) /\ out = <<>>
Step == /\ i <= Len(Runs) /\ k <= Len(Runs[i].recs)
        /\ cap' = CapRec(P, W(i), cap, Runs[i].recs[k])
        /\ out' = IF cap'.out # <<>> /\ cap'.out[1] = "c" THEN Append(out, cap'.out[2]) ELSE out
        /\ k' = k + 1 /\ UNCHANGED i
NextRun == /\ i <= Len(Runs) /\ k = Len(Runs[i].recs) + 1
           /\ i' = i + 1 /\ k' = 1 /\ cap' = CapInit(P) /\ out' = <<>>
Spec == Init /\ [][Step \/ NextRun]_vars

Accepted == (i <= Len(Runs) /\ k = Len(Runs[i].recs) + 1) =>
              /\ out = Runs[i].cmds
              /\ Runs[i].hz = Resolution(Runs[i].unit, Runs[i].n)
===============================================================================
