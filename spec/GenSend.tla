------------------------------- MODULE GenSend --------------------------------
(***************************************************************************)
(* Behaviours of the sender with longer trains, for -simulate.  ops are    *)
(* <<"l", train>> (a load) and <<"t", carrier>> (a tick).                  *)
(***************************************************************************)
EXTENDS IrSend, Json

CONSTANTS CM, STEPS

VARIABLES s, t, n, ops, fin

vars == <<s, t, n, ops, fin>>

RandTrain ==
  LET k == RandomElement(1..5)
      hi == RandomElement({1, 2, 3, 6, 15})
  IN TLCEval([i \in 1..(2 * k) |-> IF i = 1 THEN 0 ELSE RandomElement(1..hi)])

Init == s = SendInit /\ t = <<>> /\ n = 0 /\ ops = <<>> /\ fin = FALSE

(* Loads mostly come when the sender is free or almost, sometimes earlier. *)
WantLoad == CASE t = <<>>          -> RandomElement(1..3) = 1
              [] n = 0             -> RandomElement(1..12) = 1
              [] n >= FreeTick(t)  -> RandomElement(1..4) = 1
              [] n = EndTick(t)    -> FALSE
              [] OTHER             -> RandomElement(1..12) = 1

Step ==
  /\ Len(ops) < STEPS
  /\ \E l \in {WantLoad}, x \in {RandTrain} :
       IF l
       THEN /\ s' = SendLoad(s, x)
            /\ IF t = <<>> \/ n = 0 \/ n >= FreeTick(t) THEN t' = x /\ n' = 0 ELSE UNCHANGED <<t, n>>
            /\ ops' = Append(ops, <<"l", x>>)
       ELSE /\ s' = SendTick(s, CM)
            /\ n' = (IF n > 1000 THEN n ELSE n + 1) /\ t' = t
            /\ ops' = Append(ops, <<"t", IF s'.on THEN 1 ELSE 0>>)
  /\ fin' = fin
Finish ==
  /\ Len(ops) = STEPS /\ ~fin /\ fin' = TRUE
  /\ PrintT("CASE " \o ToJson(ops))
  /\ UNCHANGED <<s, t, n, ops>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Carrier == s.on = (t # <<>> /\ Ideal(t, n))
===============================================================================
