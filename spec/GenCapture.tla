------------------------------ MODULE GenCapture ------------------------------
(***************************************************************************)
(* Behaviours of IrLink written to a file: the edges become records, with  *)
(* time stamps that say nothing new, other signals and undefined values in *)
(* between, and an initial value before the first time stamp or none.      *)
(* The commands that the reader has to print are those of IrCapture.       *)
(***************************************************************************)
EXTENDS GenLink, IrCapture

VARIABLES recs, cap, k, out
cvars == <<vars, recs, cap, k, out>>

Value(e) == IF e = 1 THEN "1" ELSE RandomElement({"0", "0", "0", "x", "z"})
Noise(t) == CASE t \in 1..3 -> <<(<<"w", RandomElement({"0", "1", "x"})>>)>>
              [] OTHER -> <<>>
(* The records of one edge.                                                *)
Records(e, z, y) ==
  LET c == cap.rd.clock IN
  (IF z = 1 /\ e[2] > 1 THEN <<(<<"t", c + (e[2] \div 2)>>), <<"w", "1">>>> ELSE <<>>)
  \o (IF z = 2 THEN <<(<<"t", c>>)>> ELSE <<>>)
  \o (IF e[2] = 0 /\ z > 3 THEN <<>> ELSE <<(<<"t", c + e[2]>>)>>)
  \o Noise(y) \o <<(<<"i", Value(e[1])>>)>> \o Noise(y - 2)

First == IF RandomElement(1..2) = 1 THEN <<(<<"i", RandomElement({"0", "x"})>>)>> ELSE <<>>

(* Fold over the records of a step; what came out, if anything.            *)
RECURSIVE Feed(_, _, _, _)
Feed(c, o, rs, i) ==
  IF i > Len(rs) THEN [cap |-> c, out |-> o]
  ELSE LET n == TLCEval(CapRec(p, w, c, rs[i]))
       IN Feed(n, IF n.out = <<>> THEN o ELSE Append(o, n.out), rs, i + 1)

PutRecords(rs) ==
  \E x \in {Feed(cap, out, rs, 1)} : cap' = x.cap /\ out' = x.out /\ recs' = recs \o rs

Settled == q = <<>> /\ nops = MAXOPS
Begin == /\ Settled /\ k = -1
         /\ \E rs \in {First} : PutRecords(rs)
         /\ k' = 0 /\ UNCHANGED vars
Put == /\ Settled /\ k >= 0 /\ k < Len(hist)
       /\ \E rs \in {Records(hist[k + 1], RandomElement(1..8), RandomElement(1..12))} : PutRecords(rs)
       /\ k' = k + 1 /\ UNCHANGED vars
FinishC ==
  /\ Settled /\ k = Len(hist) /\ cap.rd.clock < 1000000000
  /\ PrintT("CASE " \o ToJson([p |-> p, f |-> f, recs |-> recs, out |-> out]))
  /\ nops' = MAXOPS + 1
  /\ UNCHANGED <<p, f, w, dec, res, q, m, fbits, ftog, clean, bad, how, done, last, open, xerr, hist, recs, cap, k, out>>

CInit == Init /\ recs = <<>> /\ cap = CapInit(p) /\ k = -1 /\ out = <<>>
CSpec == CInit /\ [][(Next /\ UNCHANGED <<recs, cap, k, out>>) \/ Begin \/ Put \/ FinishC]_cvars

(* What the reader makes of the file is what the receiver made of the edges. *)
Heard == SelectSeq([j \in 1..Len(hist) |-> hist[j][3]], LAMBDA x : x # <<>>)
SameAsHeard == (Settled /\ k = Len(hist)) => out = Heard
===============================================================================
