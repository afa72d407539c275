-------------------------------- MODULE IrMulti -------------------------------
(***************************************************************************)
(* Several decoders side by side on one line (the multi receiver).         *)
(*                                                                         *)
(* The line carries transmissions of the protocols in the slots, one after *)
(* the other, whole or broken.  Every slot is a receiver of its own; what  *)
(* the user gets at an edge is the tuple of the slots' commands in the     *)
(* protocol independent form, or the sequence of those that are there.     *)
(***************************************************************************)
EXTENDS IrFrames, IrCommands

CONSTANTS TUPLES,      \* sequences of protocols
          FREQS, MAXOPS

VARIABLES ps, f, ws,   \* protocols in the slots, tick frequency, windows
          decs,        \* the decoders
          res,         \* their results at the last edge
          q, k, m,     \* transmission: remaining slots, its protocol, mark
          fbits, clean, nops, done,
          hist

mvars == <<ps, f, ws, decs, res, q, k, m, fbits, clean, nops, done, hist>>

Bits(pr) ==
  LET all == [1..NBits(pr) -> {0, 1}]
  IN IF pr = "rc5" THEN {b \in all : b[1] = 1} ELSE all
Pick(S) == S
Lengths(ww, c, from) == {y \in Good(ww, c) : y >= from}
BadLengths(ww) == Stray(ww)
Keeping == FALSE                          \* TRUE: keep the history

LongestHi == LET S == {MaxHi(ws[i]) : i \in 1..Len(ws)}
             IN CHOOSE x \in S : \A y \in S : y <= x

MInit ==
  /\ ps \in TUPLES /\ f \in FREQS
  /\ ws = TLCEval([i \in 1..Len(ps) |-> Windows(ps[i], f)])
  /\ decs = [i \in 1..Len(ps) |-> DecInit(ps[i])]
  /\ res = [i \in 1..Len(ps) |-> NoRes]
  /\ q = <<>> /\ k = 1 /\ m = 0 /\ fbits = <<>> /\ clean = FALSE
  /\ nops = 0 /\ done = FALSE /\ hist = <<>>

(* The user's view.                                                        *)
SlotsOf(r) == [i \in 1..Len(ps) |->
                 IF r[i].k = "cmd" THEN AnyOf(ps[i], Fields(ps[i], r[i].bits, r[i].rep, r[i].tog)) ELSE <<>>]
IterOf(s) == SelectSeq(s, LAMBDA x : x # <<>>)

Observe(edge, dt, ds) ==
  /\ res' = [i \in 1..Len(ps) |-> RecvResult(ps[i], ds[i])]
  /\ decs' = [i \in 1..Len(ps) |-> RecvNext(ps[i], ds[i])]
  /\ hist' = IF Keeping THEN Append(hist, <<Bit(edge), dt, SlotsOf(res')>>) ELSE hist
Edge(edge, dt) ==
  \E ds \in {[i \in 1..Len(ps) |-> DecStep(ps[i], ws[i], decs[i], edge, dt)]} : Observe(edge, dt, ds)

Togs(pr) == IF pr = "rc6" THEN {0, 1} ELSE {0}

Send ==
  /\ q = <<>> /\ nops < MAXOPS
  /\ \E i \in Pick(1..Len(ps)) :
     \E b \in Bits(ps[i]), t \in Pick(Togs(ps[i])) :
       /\ q' = Frame(ps[i], b, t) /\ k' = i /\ fbits' = b
       /\ clean' = TRUE
  /\ nops' = nops + 1 /\ done' = FALSE
  /\ UNCHANGED <<ps, f, ws, decs, res, m, hist>>

(* A repeat code, if the protocol has one.                                 *)
SendRepeat ==
  /\ q = <<>> /\ nops < MAXOPS
  /\ \E i \in Pick({j \in 1..Len(ps) : ps[j] \in NecFamily}) :
       q' = NecRepeatFrame(ps[i]) /\ k' = i
  /\ clean' = FALSE /\ fbits' = <<>>
  /\ nops' = nops + 1 /\ done' = FALSE
  /\ UNCHANGED <<ps, f, ws, decs, res, m, hist>>

Emit ==
  /\ q # <<>>
  /\ LET s == Head(q) IN
     CASE s.k = "gap"  -> \E g \in Pick({LongestHi + 1, 3 * LongestHi}) : Edge(TRUE, g) /\ m' = 0
       [] s.k = "mark" -> Edge(FALSE, Ticks(s.us, f)) /\ m' = Ticks(s.us, f)
       [] s.k = "dist" -> \E x \in Lengths(ws[k], s.c, m) : Edge(TRUE, x - m) /\ m' = 0
       [] s.k = "half" -> \E x \in Lengths(ws[k], s.c, 0) : Edge(s.e, x) /\ m' = 0
  /\ done' = (clean /\ Head(q).fin)
  /\ q' = Tail(q)
  /\ UNCHANGED <<ps, f, ws, k, fbits, clean, nops>>

(* A pulse that fits nowhere in the transmission's own protocol.           *)
EmitBad ==
  /\ Len(q) > 1 /\ clean /\ Head(q).k \in {"dist", "half"}
  /\ \E x \in Pick({y \in BadLengths(ws[k]) : y >= m}) :
       Edge(Head(q).e, x - m)
  /\ m' = 0 /\ clean' = FALSE /\ done' = FALSE
  /\ q' = Tail(q)
  /\ UNCHANGED <<ps, f, ws, k, fbits, nops>>

(* The transmission breaks off before a rising edge.                       *)
Cut ==
  /\ Len(q) > 1 /\ Head(q).e /\ Head(q).k # "gap"
  /\ q' = <<>> /\ clean' = FALSE /\ done' = FALSE
  /\ UNCHANGED <<ps, f, ws, decs, res, k, m, fbits, nops, hist>>

MNext == Send \/ SendRepeat \/ Emit \/ EmitBad \/ Cut
MSpec == MInit /\ [][MNext]_mvars

(* A whole transmission is reported by every slot of its protocol, and by  *)
(* the slot's own protocol with its own id.                                *)
SlotDelivered ==
  done => \A i \in 1..Len(ps) :
            ps[i] = ps[k] /\ (ps[k] = "apple" => AppleValid(fbits)) =>
               res[i].k = "cmd" /\ res[i].bits = fbits /\ res[i].rep = 0
(* Slots of the same protocol always agree: nothing depends on the place.  *)
SameProtocolSameResult ==
  \A i, j \in 1..Len(ps) : ps[i] = ps[j] => decs[i] = decs[j] /\ res[i] = res[j]
(* No slot is left done or failed.                                         *)
SlotsReady == \A i \in 1..Len(ps) : DecState(decs[i]) \in {"Idle", "Receiving"}
===============================================================================
