------------------------------ MODULE IrAdapters ------------------------------
(***************************************************************************)
(* What stands between the line and a decoder: time stamps, periodic       *)
(* polling, pins that can fail, buffers, several decoders side by side.    *)
(* Every adapter turns calls of its user into <<edge, duration>> events.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

(*------------------------------ time stamps ------------------------------*)
(* A time stamp is <<h, o>>: h sixteenths of the range of the counter plus *)
(* an offset o (which may be negative) that is small against a sixteenth.  *)
(* So the rules can be stated once for 32 and 64 bit counters.  h = 16     *)
(* with a negative offset is just before the end of the counter.           *)

Stamp(h, o) ==
  LET k == h % 16
  IN IF k = 0 /\ o < 0 THEN <<16, o>> ELSE <<k, o>>

Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Diff(a, b) == <<b[1] - a[1], b[2] - a[2]>>
ZeroDur == <<0, 0>>

(* A counter that does not wrap: an earlier stamp counts as no time.       *)
PlainDelta(a, b) == IF Leq(a, b) THEN Diff(a, b) ELSE ZeroDur

(* A wrapping counter: a step forward of less than half the range is time, *)
(* also over the end; anything else counts as no time.                     *)
WrapDelta(a, b) ==
  LET h == (b[1] - a[1]) % 16
      o == b[2] - a[2]
  IN IF h < 8 /\ (h > 0 \/ o >= 0) THEN <<h, o>> ELSE ZeroDur

Delta(kind, a, b) == IF kind = "wrap" THEN WrapDelta(a, b) ELSE PlainDelta(a, b)

(*-------------------------------- polling --------------------------------*)
(* The poll counter runs modulo cm.  ev is <<>> or <<edge, duration>>.     *)
PollInit == [clock |-> 0, edge |-> FALSE, last |-> 0]

PollStep(s, level, cm) ==
  LET now == (s.clock + 1) % cm IN
  IF level = s.edge THEN [st |-> [s EXCEPT !.clock = now], ev |-> <<>>]
  ELSE [st |-> [clock |-> now, edge |-> level, last |-> now],
        ev |-> <<level, (now - s.last) % cm>>]

(*--------------------------------- buffers -------------------------------*)
(* Entry k (from 0) of a buffer ends with a rising edge if k is even.      *)
BufferEdge(k) == k % 2 = 0
===============================================================================
