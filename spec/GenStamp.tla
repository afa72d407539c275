------------------------------- MODULE GenStamp -------------------------------
(***************************************************************************)
(* Behaviours of MCStamp with longer trains and skips, for -simulate.      *)
(* ops: <<"l", train>>, <<"r">> (reset), <<"t", increment, carrier, idle>>.*)
(***************************************************************************)
EXTENDS MCStamp, Json

CONSTANTS STEPS
VARIABLES ops, fin

RandTrain ==
  LET n == RandomElement(1..5)
      hi == RandomElement({1, 2, 3, 6, 15, 60})
  IN TLCEval([i \in 1..(2 * n) |-> IF i = 1 THEN 0 ELSE RandomElement(1..hi)])
RandInc == LET a == RandomElement(1..10) IN
           IF a <= 5 THEN 1 ELSE IF a <= 7 THEN 2 ELSE IF k < Len(t) /\ k > 0 /\ a <= 9
           THEN (LET d == t[k + 1] - age + RandomElement({-1, 0, 1, 2}) IN IF d > 1 THEN d ELSE 1)
           ELSE RandomElement(1..70)

GInit == Init /\ ops = <<>> /\ fin = FALSE
Step ==
  /\ Len(ops) < STEPS
  /\ \E w \in {RandomElement(1..(IF k > Len(t) \/ t = <<>> THEN 3 ELSE 40))}, x \in {RandTrain}, n \in {RandInc} :
       CASE w = 1 -> Load(x) /\ ops' = Append(ops, <<"l", x>>)
         [] w = 2 /\ RandomElement(1..4) = 1 -> Reset /\ ops' = Append(ops, <<"r">>)
         [] OTHER -> /\ IF k <= Len(t) THEN Tick(n) ELSE
                          ts' = (ts + n) % CM /\ s' = StampTick(s, ts', CM) /\ UNCHANGED <<t, k, age>>
                     /\ ops' = Append(ops, <<"t", n, IF s'.on THEN 1 ELSE 0, IF s'.idle THEN 1 ELSE 0>>)
  /\ fin' = fin
Finish ==
  /\ Len(ops) = STEPS /\ ~fin /\ fin' = TRUE
  /\ PrintT("CASE " \o ToJson(ops))
  /\ UNCHANGED <<s, ts, t, k, age, ops>>
GSpec == GInit /\ [][Step \/ Finish]_<<vars, ops, fin>>
===============================================================================
