-------------------------------- MODULE IrSend --------------------------------
(***************************************************************************)
(* Pulse trains: what an encoder has to produce for a command, and the     *)
(* sender that plays it.                                                   *)
(*                                                                         *)
(* A pulse train is a sequence of distances between edges; the first edge  *)
(* (entry 0) starts a mark at once, and edges alternate.                   *)
(***************************************************************************)
EXTENDS IrFrames, FiniteSets

Sendable == {"nec", "nec16", "samsung", "raw", "rc5", "rc6"}

(* Frames that are the encoding of some command: the redundancy is there,  *)
(* RC5 starts with a one.                                                  *)
Encodable(p, b) == FrameValid(p, b) /\ (p = "rc5" => b[1] = 1)

(* Nominal lengths in microseconds.  The space after a mark is what is     *)
(* missing to the distance between the rising edges.                       *)
SlotUs(p, fr, k) ==
  LET s == fr[k] IN
  CASE s.k = "gap"  -> 0
    [] s.k = "mark" -> s.us
    [] s.k = "dist" -> Nominal(p)[s.c] - fr[k - 1].us
    [] s.k = "half" -> Nominal(p)[s.c]
UsOf(p, fr) == TLCEval([k \in 1..Len(fr) |-> SlotUs(p, fr, k)])
TrainUs(p, b, tog) == UsOf(p, TLCEval(Frame(p, b, tog)))

(* us * f / 10^6 is a whole number.                                        *)
Exact(us, f) ==
  ((us * ((f % 1000000) \div 1000)) % 1000) * 1000 + us * (f % 1000) = 0
  \/ (((us * ((f % 1000000) \div 1000)) % 1000) * 1000 + us * (f % 1000)) % 1000000 = 0

(* x ticks are us microseconds to within one tick.                         *)
WithinTick(x, us, f) ==
  \/ x \in {Ticks(us, f), Ticks(us, f) + 1}
  \/ x = Ticks(us, f) - 1 /\ Exact(us, f)

TrainOK(t, us, f) ==
  /\ Len(t) = Len(us)
  /\ t[1] = 0
  /\ Len(t) % 2 = 0                          \* the last edge ends a mark
  /\ \A k \in 2..Len(t) : WithinTick(t[k], us[k], f)

(*--------------------------------- sender --------------------------------*)
(* What the carrier has to do: tick n (from 1) after the load shows the    *)
(* level that the train has after n - 1 ticks.                             *)
EdgesUpTo(t, x) == Cardinality({k \in 1..Len(t) : FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(t, 1, k)) <= x})
Ideal(t, n) == n > 0 /\ EdgesUpTo(t, n - 1) % 2 = 1
Length(t) == FoldLeft(LAMBDA a, b : a + b, 0, t)
(* The tick at which the last mark ends, and the first one from which the  *)
(* next command is accepted.                                               *)
EndTick(t)  == Length(t) + 1
FreeTick(t) == Length(t) + 2

(* The machine: position in the buffer, status, time of the last edge, and *)
(* a counter that runs modulo cm and starts over with every load.          *)
SendInit == [buf |-> <<>>, pos |-> 1, on |-> FALSE, idle |-> TRUE, last |-> 0, counter |-> 0]
SendLoad(s, t) == IF s.idle THEN [SendInit EXCEPT !.buf = t] ELSE s
(* Without a pin the user counts the ticks; the counter may start anywhere *)
(* and runs on.                                                            *)
BareLoad(s, t) == IF s.idle THEN [SendInit EXCEPT !.buf = t, !.counter = s.counter] ELSE s
SendTick(s, cm) ==
  LET c == [s EXCEPT !.counter = (s.counter + 1) % cm] IN
  IF s.pos > Len(s.buf) THEN [c EXCEPT !.idle = TRUE, !.on = FALSE]
  ELSE IF (s.counter - s.last) % cm >= s.buf[s.pos]
       THEN [c EXCEPT !.on = ~s.on, !.idle = FALSE, !.pos = s.pos + 1, !.last = s.counter]
       ELSE c
(* A caller's clock may skip values: the tick carries its own time stamp.  *)
(* Loading and resetting take effect at any time.                          *)
StampTick(s, ts, cm) == SendTick([s EXCEPT !.counter = ts], cm)
StampLoad(s, t) == [SendInit EXCEPT !.buf = t]
StampReset(s) == SendInit
===============================================================================
