------------------------------- MODULE GenCustom ------------------------------
(***************************************************************************)
(* Behaviours of IrCustom for replay: calls, the events that have to reach *)
(* the decoders, their answers, and what has to be reported.               *)
(* A step is <<level, argument, pin error, event, answers, outcomes>>.     *)
(***************************************************************************)
EXTENDS IrCustom, Json

CONSTANTS STEPS, KINDS

VARIABLES kind, slots, fs, ev, stepped

vars == <<kind, slots, fs, ev, stepped>>

B(x) == IF x THEN 1 ELSE 0

RandomArg(k, s) ==
  LET z == RandomElement(1..10) IN
  IF k = "w16" THEN
    CASE z <= 6 -> (s.prev + RandomElement({0, 1, 7, 500, 20000, 32767})) % 65536
      [] z = 7 -> RandomElement(0..65535)
      [] z = 8 -> (s.prev + 65536 - RandomElement({1, 9, 300})) % 65536
      [] OTHER -> (s.prev + RandomElement(0..32767)) % 65536
  ELSE IF k = "plain" THEN
    CASE z <= 6 /\ s.prev < 1000000000 -> s.prev + RandomElement({0, 1, 7, 500, 100000, 1000000000})
      [] z = 7 /\ s.prev > 0 -> s.prev - 1
      [] z = 8 -> RandomElement(0..2147483646)
      [] OTHER -> s.prev
  ELSE RandomElement({0, 1, 2, 90, 562, 1688, 65535, 65536, 16777217, 2147483647})

RandomAnswer(s) ==
  LET z == RandomElement(1..10) IN
  CASE z <= 4 -> RandomElement({0, 1})
    [] z = 5 -> 2
    [] z <= 7 -> RandomElement(Errors)
    [] OTHER -> 10 + RandomElement(0..200)

Report(k, a) == IF k \in {"buf", "multi"} THEN CommandOnly(a) ELSE Outcome(a)

FailCode(s) == RandomElement(1..40)

Step ==
  /\ kind # "none" /\ Len(ev) < stepped
  /\ \E lv \in {RandomElement(BOOLEAN)}, x \in {RandomArg(kind, fs)}, z \in {RandomElement(1..8)} :
     \E as \in {TLCEval([s \in 1..slots |-> RandomAnswer(s)])} :
     IF z = 1 /\ kind # "buf"
     THEN /\ \E c \in {FailCode(fs)} : ev' = Append(ev, <<B(lv), x, c, <<>>, <<>>, [s \in 1..slots |-> 0 - c]>>)
          /\ UNCHANGED fs
     ELSE \E r \in {FrontStep(kind, fs, lv, x, 2147483647)} :
          /\ fs' = r.st
          /\ ev' = Append(ev, <<B(lv), x, 0,
                IF r.ev = <<>> THEN <<>> ELSE <<B(r.ev[1]), r.ev[2]>>,
                IF r.ev = <<>> THEN <<>> ELSE as,
                [s \in 1..slots |-> IF r.ev = <<>> THEN 0 ELSE Report(kind, as[s])]>>)
  /\ UNCHANGED <<kind, slots, stepped>>

Start ==
  /\ kind = "none"
  /\ \E k \in {RandomElement(KINDS)} :
       /\ kind' = k
       /\ slots' = IF k = "multi" THEN RandomElement(2..6) ELSE 1
  /\ stepped' = RandomElement(1..STEPS)
  /\ UNCHANGED <<fs, ev>>

Finish ==
  /\ kind # "none" /\ Len(ev) = stepped
  /\ PrintT("CASE " \o ToJson([kind |-> kind, slots |-> slots, ev |-> ev]))
  /\ stepped' = 0
  /\ UNCHANGED <<kind, slots, fs, ev>>

Init == kind = "none" /\ slots = 1 /\ fs = FrontInit /\ ev = <<>> /\ stepped = 0
Spec == Init /\ [][Start \/ Step \/ Finish]_vars
===============================================================================
