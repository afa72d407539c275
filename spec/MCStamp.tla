-------------------------------- MODULE MCStamp -------------------------------
(***************************************************************************)
(* The sender without a pin, driven by time stamps that skip values and    *)
(* wrap: every mark and every space lasts from the tick that began it to   *)
(* the first tick that comes at least its length later; no edge is lost,   *)
(* none is early, and after the last one the sender is idle.               *)
(***************************************************************************)
EXTENDS IrSend

CONSTANTS CM, MAXLEN, SKIP

VARIABLES s, ts,      \* the sender, the time stamp
          t, k, age   \* ghost: train, its edges so far, time since the last one

vars == <<s, ts, t, k, age>>

Trains == {<<0, a>> : a \in 1..MAXLEN} \cup
          {<<0, a, b, c>> : a \in 1..MAXLEN, b \in 1..MAXLEN, c \in 1..MAXLEN}

Init == s = SendInit /\ ts \in 0..(CM - 1) /\ t = <<>> /\ k = 0 /\ age = 0

Load(x) == s' = StampLoad(s, x) /\ t' = x /\ k' = 0 /\ age' = 0 /\ ts' = ts
Reset   == s' = StampReset(s) /\ t' = <<>> /\ k' = 0 /\ age' = 0 /\ ts' = ts

Tick(inc) ==
  LET due == k < Len(t) /\ (k = 0 \/ age + inc >= t[k + 1]) IN
  /\ ts' = (ts + inc) % CM
  /\ s' = StampTick(s, ts', CM)
  /\ k' = IF due THEN k + 1 ELSE IF k = Len(t) THEN k + 1 ELSE k
  /\ age' = IF due \/ k >= Len(t) THEN 0 ELSE age + inc
  /\ UNCHANGED t
(* k beyond the length: the sender is idle again.                          *)
Idle == k > Len(t) /\ ts' \in 0..(CM - 1) /\ s' = StampTick(s, ts', CM) /\ UNCHANGED <<t, k, age>>

Next == (\E x \in Trains : Load(x)) \/ Reset \/ (k <= Len(t) /\ \E n \in 1..SKIP : Tick(n)) \/ Idle
Spec == Init /\ [][Next]_vars

Carrier == s.on = (k <= Len(t) /\ k % 2 = 1)
IdleRight == s.idle = (k = 0 \/ k > Len(t))
===============================================================================
