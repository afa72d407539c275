------------------------------- MODULE GenRound -------------------------------
EXTENDS IrRound, Json
Yes == TRUE
One(S) == {RandomElement(S)}
RandBits(k) == TLCEval([i \in 1..k |-> RandomElement({0, 1})])
Mirror(b, pr) ==
  LET at(k) == {j \in 1..Len(Pairs(pr)) : k \in Pairs(pr)[j].j .. (Pairs(pr)[j].j + 7)}
  IN TLCEval([k \in 1..Len(b) |->
       IF at(k) = {} THEN b[k]
       ELSE LET r == Pairs(pr)[CHOOSE j \in at(k) : TRUE]
                x == b[r.i + k - r.j]
            IN IF r.inv = 1 THEN 1 - x ELSE x])
SimContents(pr) ==
  LET r == RandBits(NBits(pr)) IN
  {TLCEval(IF pr = "rc5" THEN [r EXCEPT ![1] = 1] ELSE Mirror(r, pr))}
Finish ==
  /\ q = <<>> /\ n = MAXCMDS
  /\ PrintT("CASE " \o ToJson([p |-> p, f |-> f, cmds |-> hist]))
  /\ n' = MAXCMDS + 1
  /\ UNCHANGED <<p, f, w, dec, q, sent, got, hist>>
GSpec == Init /\ [][Next \/ Finish]_vars
===============================================================================
