------------------------------- MODULE IrTiming -------------------------------
(***************************************************************************)
(* Nominal pulse lengths, tolerances and acceptance windows of every       *)
(* protocol, in ticks of a clock running at f Hz.                          *)
(*                                                                         *)
(* A protocol is identified by a string.  The five NEC variants share the  *)
(* same frame machine and differ in header timing and field layout.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

NecStd    == {"nec", "nec16", "apple", "raw"}     \* 9000/4500 us header
NecFamily == NecStd \cup {"samsung"}              \* samsung: 4500/4500 us
PulseDist == NecFamily \cup {"sbp", "denon"}      \* rise-to-rise distance coding
Biphase   == {"rc5", "rc6"}
Protos    == PulseDist \cup Biphase

(* Classes of pulses, in the order in which a length is looked up.  For    *)
(* pulse distance protocols a "pulse" is the distance between two rising   *)
(* edges (mark + space); for biphase ones the time between two edges.      *)
Nominal(p) ==
  CASE p \in NecStd    -> <<9000 + 4500, 9000 + 2250, 560 + 560, 560 + 1690>>
    [] p = "samsung"   -> <<4500 + 4500, 4500 + 2250, 560 + 560, 560 + 1690>>
    [] p = "sbp"       -> <<4500 + 4500, 500 + 4500, 500 + 500, 500 + 1500>>
    [] p = "denon"     -> <<3400 + 1600, 480 + 360, 480 + 1200>>
    [] p = "rc5"       -> <<889, 1778>>
    [] p = "rc6"       -> <<444, 888, 1332, 1776, 2220, 2664>>

Tolerance(p) ==                                    \* percent
  CASE p \in NecFamily -> <<7, 7, 25, 12>>
    [] p = "sbp"       -> <<5, 5, 10, 10>>
    [] p = "denon"     -> <<8, 10, 10>>
    [] p = "rc5"       -> <<12, 10>>
    [] p = "rc6"       -> <<12, 12, 12, 12, 12, 12>>

(* Class numbers (1-based position in the tables above; 0 = no class).     *)
NecSync == 1   NecRepeat == 2   NecZero == 3   NecOne == 4
SbpSync == 1   SbpPause  == 2   SbpZero == 3   SbpOne == 4
DenSync == 1   DenZero   == 2   DenOne  == 3

(* floor(us * f / 10^6), written so that no intermediate exceeds 2^31.     *)
Ticks(us, f) ==
  us * (f \div 1000000)
  + (us * ((f % 1000000) \div 1000) + (us * (f % 1000)) \div 1000) \div 1000

CeilDiv(x, y) == (x + y - 1) \div y

(* Inclusive acceptance window around the nominal length.                  *)
Window(us, tol, f) ==
  LET base == Ticks(us, f)
      t    == CeilDiv(base * tol, 100)
  IN  [lo |-> base - t, hi |-> base + t, base |-> base]

(* The windows of a protocol, in lookup order.  glo is the lower end of    *)
(* the part of a window that belongs to no earlier class.                  *)
Windows(p, f) ==
  LET n == Len(Nominal(p))
      w == [i \in 1..n |-> Window(Nominal(p)[i], Tolerance(p)[i], f)]
      Earlier(i) == {j \in 1..(i - 1) : w[j].lo <= w[i].hi /\ w[j].hi >= w[i].lo}
      Max(S) == CHOOSE x \in S : \A y \in S : y <= x
  IN  [i \in 1..n |->
         [lo |-> w[i].lo, hi |-> w[i].hi, base |-> w[i].base,
          glo |-> Max({w[j].hi + 1 : j \in Earlier(i)} \cup {w[i].lo})]]

In(win, d) == win.lo <= d /\ d <= win.hi

(* A length belongs to the first class whose window contains it.           *)
Classify(w, d) ==
  LET S == {i \in 1..Len(w) : In(w[i], d)}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

(* Upper end of the longest window: anything longer is an idle gap.        *)
MaxHi(w) == LET S == {w[i].hi : i \in 1..Len(w)}
            IN CHOOSE x \in S : \A y \in S : y <= x

Overlap(w) == \E i, j \in 1..Len(w) :
                 i # j /\ (In(w[i], w[j].lo) \/ In(w[i], w[j].hi))

(* Durations are capped: every duration above Cap is beyond all windows of *)
(* every supported frequency, so capping never changes a class.            *)
Cap == 500000000
Sat(x) == IF x > Cap THEN Cap ELSE x
===============================================================================
