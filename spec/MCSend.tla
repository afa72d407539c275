-------------------------------- MODULE MCSend --------------------------------
(***************************************************************************)
(* Every interleaving of load and tick, for small pulse trains, against    *)
(* the ideal carrier.  The counter is small, so it wraps while idle, and   *)
(* (bare sender, whose user counts) anywhere in a train.                   *)
(***************************************************************************)
EXTENDS IrSend

CONSTANTS CM, MAXLEN, MAXLOADS, BARE

VARIABLES s,      \* the sender
          t, n,   \* ghost: train being played, ticks since it was loaded
          loads, op

vars == <<s, t, n, loads, op>>

Trains == {<<0, a>> : a \in 1..MAXLEN} \cup
          {<<0, a, b, c>> : a \in 1..MAXLEN, b \in 1..MAXLEN, c \in 1..MAXLEN}

(* Enough idle ticks to see the counter wrap.                              *)
MaxTick == FreeTick(<<0, MAXLEN, MAXLEN, MAXLEN>>) + CM + 2

Free == t = <<>> \/ n = 0 \/ n >= FreeTick(t)

Init == s \in (IF BARE THEN {[SendInit EXCEPT !.counter = k] : k \in 0..(CM - 1)} ELSE {SendInit}) /\ t = <<>> /\ n = 0 /\ loads = 0 /\ op = "start"

Load(x) ==
  /\ loads < MAXLOADS
  /\ ~(t # <<>> /\ n = EndTick(t))         \* left open
  /\ s' = IF BARE THEN BareLoad(s, x) ELSE SendLoad(s, x)
  /\ t' = IF Free THEN x ELSE t
  /\ n' = IF Free THEN 0 ELSE n
  /\ loads' = loads + 1 /\ op' = "load"
Tick ==
  /\ n < MaxTick
  /\ s' = SendTick(s, CM)
  /\ n' = n + 1
  /\ op' = "tick"
  /\ UNCHANGED <<t, loads>>

Next == Tick \/ \E x \in Trains : Load(x)
Spec == Init /\ [][Next]_vars

(* A pin keeps its level between ticks; after a load it is off until the   *)
(* next tick because the sender was idle.                                  *)
Carrier == s.on = (t # <<>> /\ Ideal(t, n))
IdleRight == s.idle = (t = <<>> \/ n = 0 \/ n >= FreeTick(t))
===============================================================================
