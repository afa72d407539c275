------------------------------ MODULE MCInstant -------------------------------
(***************************************************************************)
(* Time stamps against real time.  A counter runs, may pass its end and    *)
(* may be set back; the adapter sees only its readings.                    *)
(***************************************************************************)
EXTENDS IrAdapters, TLC

CONSTANT MAXTURNS   \* how often the counter may pass its end

VARIABLES kind,     \* counter of the receiver: "plain" or "wrap"
          t,        \* the last reading
          turns,
          step,     \* what happened last
          real,     \* time that really passed
          delta     \* time the adapter handed on

vars == <<kind, t, turns, step, real, delta>>

Offs == {-2, -1, 0, 1, 3}

Init ==
  /\ kind \in {"plain", "wrap"}
  /\ t = <<0, 0>> /\ turns = 0 /\ step = "start" /\ real = ZeroDur /\ delta = ZeroDur

(* The end of the counter is passed on the way to <<h, o>>.                *)
Over(h, o) == h > 16 \/ (h = 16 /\ o >= 0)

(* Time passes: h sixteenths of the range, less than half of it, and a bit. *)
Advance(h, o) ==
  /\ h \in 0..7 /\ (h = 0 => o >= t[2])
  /\ \E u \in {Stamp(t[1] + h, o)} :
       /\ delta' = Delta(kind, t, u)
       /\ t' = u
       /\ real' = <<h, o - t[2]>>
  /\ turns' = IF Over(t[1] + h, o) THEN turns + 1 ELSE turns
  /\ turns' <= MAXTURNS
  /\ step' = IF Over(t[1] + h, o) THEN "over" ELSE "on"
  /\ UNCHANGED kind

(* The counter is set back.                                                *)
Back(h, o) ==
  /\ h \in 0..7 /\ (h = 0 => o < t[2])
  /\ t[1] - h > 0 \/ (t[1] = h /\ o >= 0)
  /\ \E u \in {Stamp(t[1] - h, o)} : delta' = Delta(kind, t, u) /\ t' = u
  /\ step' = "back" /\ real' = ZeroDur
  /\ UNCHANGED <<kind, turns>>

Next == \E h \in 0..7, o \in Offs : Advance(h, o) \/ Back(h, o)
Spec == Init /\ [][Next]_vars

InstantRight ==
  /\ step = "on" => delta = real
  /\ step = "over" => delta = (IF kind = "wrap" THEN real ELSE ZeroDur)
  /\ step = "back" => delta = ZeroDur
===============================================================================
