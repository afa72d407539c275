------------------------------ MODULE IrDecoders ------------------------------
(***************************************************************************)
(* The decoding state machines, one step per line edge, and the receiver   *)
(* on top of them (report, then reset).                                    *)
(*                                                                         *)
(* One record shape is shared by all protocols:                            *)
(*   st    control state                                                   *)
(*   buf   bits received so far, in order of arrival                       *)
(*   save  length of the mark in progress (pulse distance protocols)       *)
(*   ok    buf holds a completely received frame (NEC repeat)              *)
(*   par   parity of the half-bit clock (biphase protocols)                *)
(*   tog   RC6 trailer bit                                                 *)
(***************************************************************************)
EXTENDS IrTiming, SequencesExt

(* Geometry of a frame: overridden with small numbers for exhaustive runs. *)
Geo(p) ==
  CASE p \in NecFamily -> [bits |-> 32]
    [] p = "sbp"       -> [abits |-> 16, cbits |-> 20]
    [] p = "denon"     -> [bits |-> 48]
    [] p = "rc5"       -> [bits |-> 14]
    [] p = "rc6"       -> [hdr |-> 4, bits |-> 16]

DecInit(p) ==
  [st |-> "Idle", buf |-> <<>>, save |-> 0, ok |-> FALSE, par |-> 0, tog |-> 0]

(* Back to the initial control state.  NEC keeps the last frame, which a   *)
(* repeat code refers to.                                                  *)
DecReset(p, d) ==
  CASE p \in NecFamily -> [d EXCEPT !.st = "Idle", !.save = 0]
    [] p \in {"sbp", "denon", "rc5"} -> DecInit(p)
    [] p = "rc6" -> [DecInit(p) EXCEPT !.tog = d.tog]

(*--------------------------- pulse distance ------------------------------*)
(* The work is done on the rising edge, which ends a pulse of class c.     *)
(* (Operators take intermediate values as parameters because TLC evaluates *)
(* an argument once, but a LET definition at every use.)                   *)

Keep(e, b, full) == IF Len(b) = full THEN [e EXCEPT !.buf = b, !.st = "Done"]
                    ELSE [e EXCEPT !.buf = b]

NecBit(e, b, full) == IF Len(b) = full
                      THEN [e EXCEPT !.st = "Done", !.buf = b, !.ok = TRUE]
                      ELSE [e EXCEPT !.buf = b]

NecRise(p, e, c) ==
  IF e.st = "Recv" THEN
    IF c = NecZero THEN NecBit(e, Append(e.buf, 0), Geo(p).bits)
    ELSE IF c = NecOne THEN NecBit(e, Append(e.buf, 1), Geo(p).bits)
    ELSE [e EXCEPT !.st = "Data"]
  ELSE IF e.st = "Idle" THEN
    IF c = NecSync THEN [e EXCEPT !.st = "Recv", !.buf = <<>>, !.ok = FALSE]
    ELSE IF c = NecRepeat THEN [e EXCEPT !.st = "Repeat"]
    ELSE e
  ELSE e

NecStep(p, w, d, edge, dt) ==
  IF edge THEN NecRise(p, [d EXCEPT !.save = 0], Classify(w, Sat(dt + d.save)))
  ELSE [d EXCEPT !.save = dt]

SbpAddr(d, b, full) == [d EXCEPT !.buf = b, !.st = IF Len(b) = full THEN "Div" ELSE "Addr"]

SbpRise(g, d, c) ==
  IF d.st = "Cmd" THEN
    IF c = SbpZero THEN Keep(d, Append(d.buf, 0), g.abits + g.cbits)
    ELSE IF c = SbpOne THEN Keep(d, Append(d.buf, 1), g.abits + g.cbits)
    ELSE [d EXCEPT !.st = "Data"]
  ELSE IF d.st = "Addr" THEN
    IF c = SbpZero THEN SbpAddr(d, Append(d.buf, 0), g.abits)
    ELSE IF c = SbpOne THEN SbpAddr(d, Append(d.buf, 1), g.abits)
    ELSE [d EXCEPT !.st = "Address"]
  ELSE IF d.st = "Div" THEN [d EXCEPT !.st = IF c = SbpPause THEN "Cmd" ELSE "Data"]
  ELSE IF d.st = "Idle" /\ c = SbpSync THEN [d EXCEPT !.st = "Addr"]
  ELSE d

(* The mark in progress is not forgotten on the rising edge; the next      *)
(* falling edge overwrites it.                                             *)
SbpStep(p, w, d, edge, dt) ==
  IF edge THEN SbpRise(Geo(p), d, Classify(w, Sat(dt + d.save)))
  ELSE [d EXCEPT !.save = dt]

DenonRise(p, e, c) ==
  IF e.st = "Recv" THEN
    IF c = DenZero THEN Keep(e, Append(e.buf, 0), Geo(p).bits)
    ELSE IF c = DenOne THEN Keep(e, Append(e.buf, 1), Geo(p).bits)
    ELSE [e EXCEPT !.st = "Idle", !.buf = <<>>]
  ELSE IF e.st = "Idle" /\ c = DenSync THEN [e EXCEPT !.st = "Recv", !.buf = <<>>]
  ELSE e

DenonStep(p, w, d, edge, dt) ==
  IF edge THEN DenonRise(p, [d EXCEPT !.save = 0], Classify(w, Sat(dt + d.save)))
  ELSE [d EXCEPT !.save = dt]

(*------------------------------- biphase ---------------------------------*)
(* An edge whose distance to the previous one is in no window restarts the *)
(* machine; if it is a rising edge it may be the start of a frame.         *)

Bit(b) == IF b THEN 1 ELSE 0

Rc5Edge(p, d, edge) ==
  IF d.st = "Idle" /\ edge THEN [d EXCEPT !.st = "Recv", !.par = 0, !.buf = <<1>>]
  ELSE IF d.st = "Recv" /\ d.par = 0                      \* middle of a bit cell
       THEN Keep(d, Append(d.buf, Bit(edge)), Geo(p).bits)
  ELSE d

Rc5Clock(p, d, c) == IF c = 0 THEN DecInit(p) ELSE [d EXCEPT !.par = (d.par + c) % 2]

Rc5Step(p, w, d, edge, dt) == Rc5Edge(p, Rc5Clock(p, d, Classify(w, dt)), edge)

Rc6Hdr(p, d, b) == IF Len(b) = Geo(p).hdr THEN [d EXCEPT !.st = "Trail", !.buf = <<>>]
                   ELSE [d EXCEPT !.buf = b]

Rc6Edge(p, d, edge, c) ==
  CASE d.st = "Recv" -> IF d.par = 1 THEN Keep(d, Append(d.buf, Bit(~edge)), Geo(p).bits)
                        ELSE d
    [] d.st = "Idle" -> IF edge THEN [d EXCEPT !.st = "Lead", !.par = 0] ELSE d
    [] d.st = "Lead" -> [d EXCEPT !.st = IF ~edge /\ c = 6 THEN "Pause" ELSE "Idle"]
    [] d.st = "Pause" ->
         IF edge /\ c = 2 THEN [d EXCEPT !.st = "Hdr", !.buf = <<>>]
         ELSE [d EXCEPT !.st = "Idle"]
    [] d.st = "Hdr" -> IF d.par = 1 THEN Rc6Hdr(p, d, Append(d.buf, Bit(~edge))) ELSE d
    [] d.st = "Trail" ->
         IF ~edge /\ c = 3 THEN [d EXCEPT !.st = "Recv", !.tog = 1]
         ELSE IF edge /\ c = 2 THEN [d EXCEPT !.st = "Recv", !.tog = 0]
         ELSE IF ~edge /\ c = 1 THEN d
         ELSE [d EXCEPT !.st = "Idle"]
    [] OTHER -> d

Rc6Clock(p, d, c) == IF c = 0 THEN [DecInit(p) EXCEPT !.tog = d.tog]
                     ELSE [d EXCEPT !.par = (d.par + c) % 2]

Rc6Both(p, d, edge, c) == Rc6Edge(p, Rc6Clock(p, d, c), edge, c)
Rc6Step(p, w, d, edge, dt) == Rc6Both(p, d, edge, Classify(w, dt))

DecStep(p, w, d, edge, dt) ==
  CASE p \in NecFamily -> NecStep(p, w, d, edge, dt)
    [] p = "sbp"       -> SbpStep(p, w, d, edge, dt)
    [] p = "denon"     -> DenonStep(p, w, d, edge, dt)
    [] p = "rc5"       -> Rc5Step(p, w, d, edge, dt)
    [] p = "rc6"       -> Rc6Step(p, w, d, edge, dt)

(* What the decoder tells its user about itself.                           *)
DecState(d) ==
  CASE d.st = "Idle"               -> "Idle"
    [] d.st \in {"Done", "Repeat"} -> "Done"
    [] d.st \in {"Data", "Address"} -> d.st
    [] OTHER                       -> "Receiving"

(*------------------------- bits to command fields ------------------------*)

ValMsb(b, from, len) ==
  FoldLeft(LAMBDA acc, x : 2 * acc + x, 0, SubSeq(b, from, from + len - 1))
ValLsb(b, from, len) ==                \* bit `from` is the least significant
  FoldRight(LAMBDA x, acc : 2 * acc + x, SubSeq(b, from, from + len - 1), 0)

Ones(b) == FoldLeft(LAMBDA acc, x : acc + x, 0, b)

AppleVendor == 1087                                              \* 0x43F
AppleValid(b) == ValLsb(b, 6, 11) = AppleVendor /\ Ones(b) % 2 = 1    \* odd parity

Inverse8(b, i, j) == \A k \in 0..7 : b[i + k] + b[j + k] = 1
Equal8(b, i, j)  == \A k \in 0..7 : b[i + k] = b[j + k]

(* Redundancy of a frame: pairs of bytes that must be each other's         *)
(* complement (inv = 1) or equal (inv = 0).                                *)
Pairs(p) ==
  CASE p = "nec"     -> <<[i |-> 1, j |-> 9, inv |-> 1], [i |-> 17, j |-> 25, inv |-> 1]>>
    [] p = "nec16"   -> <<[i |-> 17, j |-> 25, inv |-> 1]>>
    [] p = "samsung" -> <<[i |-> 1, j |-> 9, inv |-> 0], [i |-> 17, j |-> 25, inv |-> 1]>>
    [] p = "sbp"     -> <<[i |-> 21, j |-> 29, inv |-> 1]>>
    [] OTHER         -> <<>>

PairOk(q, b) == IF q.inv = 1 THEN Inverse8(b, q.i, q.j) ELSE Equal8(b, q.i, q.j)

(* A frame with the redundancy of its protocol.                            *)
FrameValid(p, b) ==
  /\ \A k \in 1..Len(Pairs(p)) : PairOk(Pairs(p)[k], b)
  /\ p = "apple" => AppleValid(b)

(* Where the fields of a command lie in the frame: first bit, number of    *)
(* bits, 1 if the most significant bit comes first.                        *)
Layout(p) ==
  CASE p \in {"nec", "samsung"} -> <<[n |-> "a", at |-> 1, len |-> 8, msb |-> 0],
                                     [n |-> "c", at |-> 17, len |-> 8, msb |-> 0]>>
    [] p = "nec16" -> <<[n |-> "a", at |-> 1, len |-> 16, msb |-> 0],
                        [n |-> "c", at |-> 17, len |-> 8, msb |-> 0]>>
    [] p = "apple" -> <<[n |-> "pg", at |-> 1, len |-> 5, msb |-> 0],
                        [n |-> "c", at |-> 18, len |-> 7, msb |-> 0],
                        [n |-> "d", at |-> 25, len |-> 8, msb |-> 0]>>
    [] p = "raw"   -> <<[n |-> "lo", at |-> 1, len |-> 16, msb |-> 0],
                        [n |-> "hi", at |-> 17, len |-> 16, msb |-> 0]>>
    [] p = "rc5"   -> <<[n |-> "s", at |-> 1, len |-> 2, msb |-> 1],
                        [n |-> "g", at |-> 3, len |-> 1, msb |-> 1],
                        [n |-> "a", at |-> 4, len |-> 5, msb |-> 1],
                        [n |-> "c", at |-> 9, len |-> 6, msb |-> 1]>>
    [] p = "rc6"   -> <<[n |-> "a", at |-> 1, len |-> 8, msb |-> 1],
                        [n |-> "c", at |-> 9, len |-> 8, msb |-> 1]>>
    [] p = "sbp"   -> <<[n |-> "a", at |-> 1, len |-> 16, msb |-> 0],   \* then 4 unknown
                        [n |-> "c", at |-> 21, len |-> 8, msb |-> 0]>>  \* then inverted c
    [] p = "denon" -> <<[n |-> "w0", at |-> 1, len |-> 16, msb |-> 0],
                        [n |-> "w1", at |-> 17, len |-> 16, msb |-> 0],
                        [n |-> "w2", at |-> 33, len |-> 16, msb |-> 0]>>

(* Which further values a command carries: the repeat flag, the toggle bit *)
(* from the RC6 trailer, the verdict on the SBP check byte.                *)
Extra(p) == CASE p \in NecFamily \ {"raw"} -> "r"
              [] p = "rc6" -> "g" [] p = "sbp" -> "v" [] OTHER -> ""

ExtraVal(p, b, rep, tog) ==
  CASE Extra(p) = "r" -> rep [] Extra(p) = "g" -> tog
    [] Extra(p) = "v" -> (IF FrameValid(p, b) THEN 1 ELSE 0) [] OTHER -> 0

Val(f, b) == IF f.msb = 1 THEN ValMsb(b, f.at, f.len) ELSE ValLsb(b, f.at, f.len)

(* The values a command carries, in the order of Layout, then the extra.   *)
FieldsOf(lay, x, b) ==
  [i \in 1..(Len(lay) + 1) |-> IF i <= Len(lay) THEN Val(lay[i], b) ELSE x]
Fields(p, b, rep, tog) == FieldsOf(Layout(p), ExtraVal(p, b, rep, tog), b)

(* The command a decoder in state d offers: none unless Done, none if the  *)
(* repeat code follows no complete frame, none if an Apple frame is not    *)
(* valid.                                                                  *)
HasCmd(p, d) ==
  \/ d.st = "Done"   /\ (p = "apple" => AppleValid(d.buf))
  \/ d.st = "Repeat" /\ d.ok /\ (p = "apple" => AppleValid(d.buf))
IsRep(d) == IF d.st = "Repeat" THEN 1 ELSE 0

(*------------------------------- receiver --------------------------------*)
(* k: "none", "cmd" (bits, rep, tog) or "err" (e).                         *)
NoRes == [k |-> "none", bits |-> <<>>, rep |-> 0, tog |-> 0, e |-> ""]

RecvResult(p, d) ==
  CASE DecState(d) = "Done" ->
         IF HasCmd(p, d)
         THEN [k |-> "cmd", bits |-> d.buf, rep |-> IsRep(d), tog |-> d.tog, e |-> ""]
         ELSE NoRes
    [] DecState(d) \in {"Data", "Address"} -> [NoRes EXCEPT !.k = "err", !.e = DecState(d)]
    [] OTHER -> NoRes

RecvNext(p, d) == IF DecState(d) \in {"Idle", "Receiving"} THEN d ELSE DecReset(p, d)

(* Observable outcome of a receiver step: <<>> nothing, <<"e", kind>> or   *)
(* <<"c", values>>.                                                        *)
Show(p, res) ==
  CASE res.k = "none" -> <<>>
    [] res.k = "err"  -> <<"e", res.e>>
    [] res.k = "cmd"  -> <<"c", Fields(p, res.bits, res.rep, res.tog)>>
===============================================================================
