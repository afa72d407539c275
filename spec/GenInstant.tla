------------------------------ MODULE GenInstant ------------------------------
(***************************************************************************)
(* Behaviours of IrLink seen through a counter: the edges get time stamps  *)
(* from a counter that starts anywhere, may pass its end in the middle of  *)
(* a frame, and now and then jumps forward or back.  Each case carries the *)
(* stamps and the durations that the receiver has to derive from them.     *)
(***************************************************************************)
EXTENDS GenLink, IrAdapters

(* Where the counter stands just before the first edge: somewhere, or so   *)
(* close to its end that it passes it within the behaviour.  A wrapping    *)
(* counter is started in the lower half (its first step is from zero).     *)
Base(kd, total) ==
  LET z == RandomElement(1..6) IN
  CASE z = 1 -> <<0, 0>>
    [] z = 2 -> <<RandomElement(IF kd = "wrap" THEN 1..7 ELSE 1..15), RandomElement(0..1000)>>
    [] z >= 3 /\ kd = "plain" -> <<16, 0 - RandomElement(1..(total + 1))>>
    [] z >= 3 /\ kd = "wrap"  -> <<RandomElement(5..7), RandomElement(0..1000)>>

(* A step that the statement of the property leaves open: a wrapping       *)
(* counter that moves by half its range or more without passing its end.   *)
Open(kd, a, b) == kd = "wrap" /\ ((b[1] - a[1]) % 16 = 8 \/ b[1] - a[1] >= 8)

Total == FoldLeft(LAMBDA a, e : Sat(a + e[2]), 0, hist)

(* The next stamp: dt later; or displaced by some sixteenths of the range; *)
(* or shortly before the end of the counter; or a little back.             *)
Displaced(u, dt, z) ==
  CASE z = 1 -> Stamp(u[1] + RandomElement(1..7), u[2] + dt)
    [] z = 2 -> Stamp(u[1] - RandomElement(1..7), u[2] + dt)
    [] z \in {3, 4} /\ u[1] \in 9..15 -> <<16, 0 - RandomElement(1..(1 + Total \div 4))>>
    [] z \in {3, 4} /\ u[1] < 9 -> Stamp(u[1] + 7, u[2] + dt)
    [] z = 5 -> Stamp(u[1], u[2] - RandomElement(1..50))
    [] OTHER -> Stamp(u[1], u[2] + dt)

VARIABLES kind, t, ev

ivars == <<vars, kind, t, ev>>

(* One more edge gets its stamp.                                           *)
StampTo(e, u) ==
  /\ t' = u
  /\ ev' = Append(ev, <<e[1], u[1], u[2], Delta(kind, IF ev = <<>> THEN <<0, 0>> ELSE t, u)>>)

PutStamp(e) ==
  \E u \in {Displaced(t, e[2], IF ev = <<>> THEN 0 ELSE RandomElement(1..150))} :
    IF Open(kind, t, u) \/ u[1] < 0 THEN StampTo(e, Stamp(t[1], t[2] + e[2])) ELSE StampTo(e, u)

Stamping ==
  /\ q = <<>> /\ nops = MAXOPS /\ kind # "none" /\ Len(ev) < Len(hist)
  /\ PutStamp(hist[Len(ev) + 1])
  /\ UNCHANGED <<vars, kind>>

StartStamps ==
  /\ q = <<>> /\ nops = MAXOPS /\ kind = "none" /\ Total < 100000000
  /\ \E kd \in {RandomElement({"plain", "wrap"})} : kind' = kd /\ t' = Base(kd, Total)
  /\ UNCHANGED <<vars, ev>>

FinishI ==
  /\ q = <<>> /\ nops = MAXOPS /\ Len(ev) = Len(hist)
  /\ PrintT("CASE " \o ToJson([kind |-> kind, p |-> p, f |-> f, ev |-> ev]))
  /\ nops' = MAXOPS + 1
  /\ UNCHANGED <<p, f, w, dec, res, q, m, fbits, ftog, clean, bad, how, done, last, open, xerr, hist, kind, t, ev>>

IInit == Init /\ kind = "none" /\ t = <<0, 0>> /\ ev = <<>>
ISpec == IInit /\ [][(Next /\ UNCHANGED <<kind, t, ev>>) \/ StartStamps \/ Stamping \/ FinishI]_ivars
===============================================================================
