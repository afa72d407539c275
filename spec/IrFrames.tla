------------------------------- MODULE IrFrames -------------------------------
(***************************************************************************)
(* What a transmitter puts on the air: frames as sequences of slots, one   *)
(* slot per line edge.                                                     *)
(*   e    TRUE for a rising edge (start of a mark)                         *)
(*   k    "gap"  rising edge after an idle line                            *)
(*        "mark" falling edge ending a mark of nominally us microseconds   *)
(*        "dist" rising edge; distance to the previous rising edge is of   *)
(*               class c                                                   *)
(*        "half" biphase edge; distance to the previous edge is of class c *)
(*        "raw"  any edge, us holds the distance in ticks                  *)
(*   fin  the edge with which the frame is completely known                *)
(***************************************************************************)
EXTENDS IrDecoders, TLC

Slot(e, k, c, us, fin) == [e |-> e, k |-> k, c |-> c, us |-> us, fin |-> fin]
GapSlot         == Slot(TRUE, "gap", 0, 0, FALSE)
MarkSlot(us)    == Slot(FALSE, "mark", 0, us, FALSE)
DistSlot(c)     == Slot(TRUE, "dist", c, 0, FALSE)
RawSlot(e, dt)  == Slot(e, "raw", 0, dt, FALSE)

NBits(p) == CASE p = "sbp" -> Geo(p).abits + Geo(p).cbits [] OTHER -> Geo(p).bits

(* Pulse distance: header, then one (mark, distance) pair per bit, least   *)
(* significant bit first, closed by a stop mark.                           *)
BitPair(us, c) == <<MarkSlot(us), DistSlot(c)>>

BitPairs(us, c0, c1, bits) ==
  TLCEval([j \in 1..(2 * Len(bits)) |->
     IF j % 2 = 1 THEN MarkSlot(us)
     ELSE DistSlot(IF bits[j \div 2] = 1 THEN c1 ELSE c0)])

NecHeader(p) == IF p = "samsung" THEN 4500 ELSE 9000

SetFin(s, i) == [s EXCEPT ![i].fin = TRUE]

NecFrame(p, bits) ==
  LET s == <<GapSlot, MarkSlot(NecHeader(p)), DistSlot(NecSync)>>
           \o BitPairs(560, NecZero, NecOne, bits) \o <<MarkSlot(560)>>
  IN SetFin(s, Len(s) - 1)

NecRepeatFrame(p) ==
  SetFin(<<GapSlot, MarkSlot(NecHeader(p)), DistSlot(NecRepeat), MarkSlot(560)>>, 3)

SbpFrame(p, bits) ==
  LET g == Geo(p)
      s == <<GapSlot, MarkSlot(4500), DistSlot(SbpSync)>>
           \o BitPairs(500, SbpZero, SbpOne, SubSeq(bits, 1, g.abits))
           \o BitPair(500, SbpPause)
           \o BitPairs(500, SbpZero, SbpOne, SubSeq(bits, g.abits + 1, Len(bits)))
           \o <<MarkSlot(500)>>
  IN SetFin(s, Len(s) - 1)

DenonFrame(p, bits) ==
  LET s == <<GapSlot, MarkSlot(3400), DistSlot(DenSync)>>
           \o BitPairs(480, DenZero, DenOne, bits) \o <<MarkSlot(480)>>
  IN SetFin(s, Len(s) - 1)

(* Biphase: line levels per half bit; an edge wherever the level changes.  *)
Halves(bits, one) ==
  TLCEval([j \in 1..(2 * Len(bits)) |->
     IF bits[(j + 1) \div 2] = 1 THEN one[2 - (j % 2)] ELSE 1 - one[2 - (j % 2)]])

Rc5Levels(bits) == Halves(bits, <<0, 1>>)

Rc6Levels(bits, tog) ==
  <<1, 1, 1, 1, 1, 1, 0, 0>>                        \* leader
  \o Halves(<<1, 0, 0, 0>>, <<1, 0>>)            \* start bit, mode 000
  \o (IF tog = 1 THEN <<1, 1, 0, 0>> ELSE <<0, 0, 1, 1>>)
  \o Halves(bits, <<1, 0>>)

(* Half bits at whose start the level changes (the line is idle before     *)
(* and after), and the slots of these edges.                                *)
BiphaseFrame(levels) ==
  LET lv == TLCEval(levels \o <<0>>)
      n  == Len(lv)
      at == TLCEval(SelectSeq([i \in 1..n |-> i],
                      LAMBDA i : lv[i] # (IF i = 1 THEN 0 ELSE lv[i - 1])))
  IN [k \in 1..Len(at) |->
        IF k = 1 THEN GapSlot
        ELSE Slot(lv[at[k]] = 1, "half", at[k] - at[k - 1], 0, at[k] = n - 1)]

Frame(p, bits, tog) ==
  CASE p \in NecFamily -> NecFrame(p, bits)
    [] p = "sbp"       -> SbpFrame(p, bits)
    [] p = "denon"     -> DenonFrame(p, bits)
    [] p = "rc5"       -> BiphaseFrame(Rc5Levels(bits))
    [] p = "rc6"       -> BiphaseFrame(Rc6Levels(bits, tog))

(*------------------ concrete lengths for a slot --------------------------*)

OfClass(w, S, c) == {d \in S : d >= 0 /\ Classify(w, d) = c}

(* In-window lengths: both ends, next to the ends, nominal.                *)
Good(w, c) == {d \in {w[c].glo, w[c].glo + 1, w[c].base, w[c].hi - 1, w[c].hi} :
                 w[c].glo <= d /\ d <= w[c].hi}

Boundary(w) == UNION {{w[i].lo - 1, w[i].lo, w[i].base, w[i].hi, w[i].hi + 1} : i \in 1..Len(w)}

(* Lengths in no window at all.                                            *)
Stray(w) == OfClass(w, Boundary(w) \cup {0, 1, 2 * MaxHi(w), Cap}, 0)

(* Lengths of idle gaps.                                                   *)
Gaps(w) == {MaxHi(w) + 1, 3 * MaxHi(w), 40 * MaxHi(w)}
===============================================================================
