------------------------------- MODULE GenMulti -------------------------------
(***************************************************************************)
(* Behaviours of IrMulti at real frame sizes, for -simulate.               *)
(***************************************************************************)
EXTENDS IrMulti, Json

Cycle == <<"nec", "samsung", "apple", "rc5", "rc6", "sbp", "denon">>
Tuples ==
  {[i \in 1..n |-> Cycle[((a + i) % 7) + 1]] : a \in 0..6, n \in 2..6}
  \cup {<<"nec", "nec">>, <<"samsung", "nec">>, <<"rc6", "rc5">>, <<"rc5", "rc5", "rc5">>,
        <<"denon", "sbp", "rc6", "rc5", "apple", "samsung">>, <<"sbp", "nec", "sbp", "nec">>,
        <<"apple", "nec", "apple", "nec", "apple">>, <<"rc6", "nec", "rc6", "nec", "rc6", "nec">>}

Yes == TRUE
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
RandBits(n) == TLCEval([i \in 1..n |-> RandomElement({0, 1})])
AppleBits ==
  LET r == RandBits(32)
      v == <<1,1,1,1,1,1,0,0,0,0,1>>
      b == TLCEval([i \in 1..32 |-> IF i \in 6..16 THEN v[i - 5] ELSE r[i]])
  IN IF Ones(b) % 2 = 1 THEN b ELSE [b EXCEPT ![17] = 1 - b[17]]
SimBits(pr) ==
  LET b == TLCEval(IF pr = "apple" THEN AppleBits ELSE RandBits(NBits(pr)))
  IN {TLCEval(IF pr = "rc5" THEN [b EXCEPT ![1] = 1] ELSE b)}
SimLengths(ww, c, from) ==
  LET lo == IF ww[c].glo > from THEN ww[c].glo ELSE from
  IN IF lo >= ww[c].hi THEN {ww[c].hi} ELSE {RandomElement({lo, ww[c].hi, RandomElement(lo..ww[c].hi)})}

(* Breaks are rare: a transition is one of them with probability 1/80.     *)
GEmit == Emit
GBad  == RandomElement(1..80) = 1 /\ EmitBad
GCut  == RandomElement(1..80) = 1 /\ Cut
GRep  == RandomElement(1..3) = 1 /\ SendRepeat
Finish ==
  /\ q = <<>> /\ nops = MAXOPS
  /\ PrintT("CASE " \o ToJson([ps |-> ps, f |-> f, ev |-> hist]))
  /\ nops' = MAXOPS + 1
  /\ UNCHANGED <<ps, f, ws, decs, res, q, k, m, fbits, clean, done, hist>>
GNext == Send \/ GRep \/ GEmit \/ GBad \/ GCut \/ Finish
GSpec == MInit /\ [][GNext]_mvars
===============================================================================
