-------------------------------- MODULE IrLink --------------------------------
(***************************************************************************)
(* Transmitter, air and receiver.  One action per line edge.               *)
(*                                                                         *)
(* The transmitter sends frames, repeat codes and noise; the plan of each  *)
(* frame says whether it is transmitted cleanly, has one pulse corrupted,  *)
(* or is cut off.  The receiver is the decoder machine of IrDecoders.      *)
(* The invariants relate what the receiver reports to what was sent.       *)
(***************************************************************************)
EXTENDS IrFrames, FiniteSets, TLC

CONSTANTS
  PROTOS,      \* protocols to explore
  FREQS,       \* tick frequencies to explore
  MAXOPS,      \* number of transmissions per behaviour
  KINDS,       \* subset of {"clean","corrupt","abort","splice","repeat","noise"}
  Record       \* TRUE: keep the history (trace generation)

VARIABLES
  p, f, w,     \* protocol, tick frequency, its windows (fixed at Init)
  dec,         \* decoder state
  res,         \* result of the last receiver step
  q,           \* slots still to be transmitted
  m,           \* length of the mark just transmitted
  fbits, ftog,   \* content of the frame in transmission
  clean,       \* it has been in tolerance so far
  bad,         \* number of slots until the corrupted/cut one (-1: none)
  how,         \* "corrupt" or "abort"
  done,        \* the last step was the final edge of a clean frame / repeat
  last,        \* [ok, bits]: the most recently started frame, if complete
  open,        \* pulses of the frame in progress received so far (0: none)
  xerr,        \* the error the last step must signal
  nops,
  hist

vars == <<p, f, w, dec, res, q, m, fbits, ftog, clean, bad, how, done, last, open, xerr, nops, hist>>

(* Choice sets, overridden by the trace generators.                        *)
BitChoices(pr) ==
  LET all == [1..NBits(pr) -> {0, 1}]
  IN IF pr = "rc5" THEN {b \in all : b[1] = 1} ELSE all
SpliceBits(pr) == {b \in BitChoices(pr) : \A i \in 2..Len(b) : b[i] = b[1]}   \* first part of a splice
BadChoices(n)  == 1..n
GoodPick(ww, c, from) == {y \in Good(ww, c) : y >= from}
Thin(S)        == S                       \* generators thin large choice sets
NoiseChoices(ww) ==                       \* two edges of any direction
  {<<e1, a, e2, b>> : e1 \in BOOLEAN, e2 \in BOOLEAN,
                      a \in {0, MaxHi(ww) + 1, ww[1].base}, b \in Boundary(ww) \cup {0}}

Init ==
  /\ p \in PROTOS /\ f \in FREQS
  /\ w = TLCEval(Windows(p, f))
  /\ dec = DecInit(p)
  /\ res = NoRes
  /\ q = <<>> /\ m = 0 /\ fbits = <<>> /\ ftog = 0 /\ clean = FALSE
  /\ bad = -1 /\ how = "" /\ done = "no"
  /\ last = [ok |-> FALSE, bits |-> <<>>]
  /\ open = 0 /\ xerr = "" /\ nops = 0 /\ hist = <<>>

(* The receiver sees an edge, dt after the previous one.                   *)
Log(edge, dt, r) == IF Record
                    THEN Append(hist, <<IF edge THEN 1 ELSE 0, dt, Show(p, r)>>)
                    ELSE hist

ReceiveTo(edge, dt, d, r) ==
  /\ res' = r
  /\ dec' = RecvNext(p, d)
  /\ hist' = Log(edge, dt, r)
ReceiveD(edge, dt, d) == ReceiveTo(edge, dt, d, RecvResult(p, d))
Receive(edge, dt) == ReceiveD(edge, dt, DecStep(p, w, dec, edge, dt))

(*------------------------------ transmitter ------------------------------*)

StartFrame(b, t, kind, at) ==
  /\ q' = TLCEval(Frame(p, b, t))
  /\ fbits' = b /\ ftog' = t
  /\ bad' = at /\ how' = kind
  /\ done' = "no" /\ xerr' = "" /\ nops' = nops + 1
  /\ res' = NoRes
  /\ UNCHANGED <<p, f, w, dec, m, clean, last, open, hist>>

Togs(pr) == IF pr = "rc6" THEN {0, 1} ELSE {0}

SendClean ==
  /\ \E b \in BitChoices(p), t \in Togs(p) : StartFrame(b, t, "clean", -1)

(* One slot (not the first, not a mark) is transmitted out of tolerance.   *)
SendCorrupt ==
  /\ \E b \in BitChoices(p), t \in Togs(p) :
       LET fr == Frame(p, b, t)
           ok == {i \in 1..Len(fr) : fr[i].k \in {"dist", "half"}}
       IN \E i \in Thin(ok) : StartFrame(b, t, "corrupt", i - 1)

(* The transmission stops before slot i; a mark in progress is ended.      *)
SendCut ==
  /\ \E b \in BitChoices(p), t \in Togs(p) :
       LET fr == Frame(p, b, t)
           ok == {i \in 2..Len(fr) : fr[i].e}
       IN \E i \in Thin(ok) : StartFrame(b, t, "abort", i - 1)

(* A frame breaks off and the next one follows without a gap: the rising   *)
(* edge with which it starts comes after any length at all (which is not   *)
(* the last thing the broken frame lacked).                                *)
JoinSlot == Slot(TRUE, "join", 0, 0, FALSE)
SendSplice ==
  /\ \E a \in SpliceBits(p), b \in BitChoices(p), t \in Togs(p) :
       LET fr == Frame(p, a, t)
           ok == {i \in 2..(Len(fr) - 1) : ~fr[i].e /\ \E k \in (i + 3)..Len(fr) : fr[k].fin}
       IN \E i \in Thin(ok) :
            /\ q' = TLCEval([k \in 1..i |-> [fr[k] EXCEPT !.fin = FALSE]] \o <<JoinSlot>> \o Tail(Frame(p, b, t)))
            /\ fbits' = b /\ ftog' = t
  /\ bad' = -1 /\ how' = "splice" /\ done' = "no" /\ xerr' = "" /\ nops' = nops + 1
  /\ res' = NoRes
  /\ UNCHANGED <<p, f, w, dec, m, clean, last, open, hist>>

SendRepeat ==
  /\ p \in NecFamily
  /\ q' = NecRepeatFrame(p)
  /\ bad' = -1 /\ how' = "repeat" /\ done' = "no" /\ xerr' = "" /\ nops' = nops + 1
  /\ res' = NoRes
  /\ UNCHANGED <<p, f, w, dec, m, fbits, ftog, clean, last, open, hist>>

SendNoise ==
  /\ \E ab \in NoiseChoices(w) :
       q' = <<RawSlot(ab[1], ab[2]), RawSlot(ab[3], ab[4])>>
  /\ bad' = -1 /\ how' = "noise" /\ done' = "no" /\ xerr' = "" /\ nops' = nops + 1
  /\ res' = NoRes
  /\ UNCHANGED <<p, f, w, dec, m, fbits, ftog, clean, last, open, hist>>

Send ==
  /\ q = <<>> /\ nops < MAXOPS
  /\ \E kind \in Thin({k \in KINDS : k = "repeat" => p \in NecFamily}) :
       CASE kind = "clean"   -> SendClean
         [] kind = "corrupt" -> SendCorrupt
         [] kind = "abort"   -> SendCut
         [] kind = "splice"  -> SendSplice
         [] kind = "repeat"  -> SendRepeat
         [] kind = "noise"   -> SendNoise

(*---------------------------------- air ----------------------------------*)

(* Lengths a mark of nominally us microseconds may have: the demodulator   *)
(* stretches or shrinks it; the rise-to-rise distance is unaffected.       *)
Marks(us) ==
  LET n == Ticks(us, f)
      limit == IF Len(q) > 1 /\ q[2].k = "dist" THEN w[q[2].c].lo ELSE n
  IN {x \in {n, (4 * n) \div 5, (5 * n) \div 4} : x <= limit}

(* Ghosts: how far the frame in progress has come, and the error that is   *)
(* due if it breaks here.                                                  *)
Header(s) == \/ p \in NecFamily /\ s.c = NecSync
             \/ p = "sbp" /\ s.c = SbpSync
NextOpen(s) == IF how = "repeat" \/ ~clean \/ s.fin THEN 0
               ELSE IF Header(s) \/ open > 0 THEN open + 1 ELSE 0
Broken == CASE open = 0 -> ""
            [] open > 0 /\ p = "sbp" /\ open <= Geo(p).abits -> "Address"
            [] OTHER -> "Data"

EmitGap ==
  /\ q # <<>> /\ Head(q).k = "gap" /\ bad # 0
  /\ \E g \in Thin(Gaps(w)) : Receive(TRUE, g)
  /\ m' = 0 /\ clean' = TRUE
  /\ xerr' = Broken /\ open' = 0
  /\ last' = last
  /\ done' = "no"
  /\ q' = Tail(q) /\ bad' = bad - 1
  /\ UNCHANGED <<p, f, w, fbits, ftog, how, nops>>

(* The length before a joined frame: any class or none.                    *)
JoinLens(ww) == {0, 2 * MaxHi(ww)} \cup {ww[c].base : c \in 1..Len(ww)}
EmitJoin ==
  /\ q # <<>> /\ Head(q).k = "join"
  /\ \E x \in Thin({y \in JoinLens(w) : y >= m}) : Receive(TRUE, x - m)
  /\ m' = 0 /\ clean' = TRUE
  /\ xerr' = "" /\ open' = 0 /\ last' = last /\ done' = "no"
  /\ q' = Tail(q)
  /\ UNCHANGED <<p, f, w, fbits, ftog, bad, how, nops>>

EmitMark ==
  /\ q # <<>> /\ Head(q).k = "mark" /\ bad # 0
  /\ \E x \in Thin(Marks(Head(q).us)) : Receive(FALSE, x) /\ m' = x
  /\ done' = "no"
  /\ q' = Tail(q) /\ bad' = bad - 1
  /\ xerr' = ""
  /\ UNCHANGED <<p, f, w, fbits, ftog, clean, how, last, open, nops>>

Done(s) == IF s.fin /\ clean
           THEN (CASE how = "repeat" -> "repeat" [] how = "splice" -> "maybe" [] OTHER -> "frame")
           ELSE "no"

(* Ghost: the frame whose header went out most recently, if it completed.  *)
NextLast(s) ==
  CASE how = "repeat" -> last
    [] how # "repeat" /\ s.fin /\ clean -> [ok |-> TRUE, bits |-> fbits]
    [] how # "repeat" /\ ~(s.fin /\ clean) /\ p \in NecFamily /\ s.c = NecSync ->
         [ok |-> FALSE, bits |-> <<>>]
    [] OTHER -> last

EmitDist ==
  /\ q # <<>> /\ Head(q).k = "dist" /\ bad # 0
  /\ \E x \in GoodPick(w, Head(q).c, m) : Receive(TRUE, x - m)
  /\ m' = 0
  /\ done' = Done(Head(q)) /\ last' = NextLast(Head(q))
  /\ xerr' = "" /\ open' = NextOpen(Head(q))
  /\ q' = Tail(q) /\ bad' = bad - 1
  /\ UNCHANGED <<p, f, w, fbits, ftog, clean, how, nops>>

EmitHalf ==
  /\ q # <<>> /\ Head(q).k = "half" /\ bad # 0
  /\ \E x \in GoodPick(w, Head(q).c, 0) : Receive(Head(q).e, x)
  /\ done' = Done(Head(q)) /\ last' = NextLast(Head(q))
  /\ xerr' = "" /\ open' = NextOpen(Head(q))
  /\ q' = Tail(q) /\ bad' = bad - 1
  /\ UNCHANGED <<p, f, w, m, fbits, ftog, clean, how, nops>>

EmitRaw ==
  /\ q # <<>> /\ Head(q).k = "raw"
  /\ Receive(Head(q).e, Head(q).us)
  /\ done' = "no" /\ clean' = FALSE /\ xerr' = "" /\ open' = 0
  /\ q' = Tail(q)
  /\ UNCHANGED <<p, f, w, m, fbits, ftog, bad, how, last, nops>>

(* A pulse out of tolerance: in no window, or (bit and pause positions) in *)
(* the window of a class that has no business there.                       *)
Illegal(s) ==
  LET alien ==
        CASE p \in NecFamily /\ s.c \in {NecZero, NecOne} -> {NecSync, NecRepeat}
          [] p \in NecFamily /\ s.c = NecSync -> {NecZero, NecOne}
          [] p = "sbp" /\ s.c \in {SbpZero, SbpOne} -> {SbpSync, SbpPause}
          [] p = "sbp" /\ s.c = SbpSync  -> {SbpPause, SbpZero, SbpOne}
          [] p = "sbp" /\ s.c = SbpPause -> {SbpSync, SbpZero, SbpOne}
          [] p = "denon" /\ s.c \in {DenZero, DenOne} -> {DenSync}
          [] p = "denon" /\ s.c = DenSync -> {DenZero, DenOne}
          [] OTHER -> {}
  IN Stray(w) \cup {w[c].base : c \in alien}

EmitBad ==
  /\ q # <<>> /\ bad = 0 /\ how = "corrupt"
  /\ LET s == Head(q) IN
     \E x \in Thin({y \in Illegal(s) : y >= m}) :
       /\ Receive(s.e, IF s.k = "dist" THEN x - m ELSE x)
       /\ m' = 0 /\ clean' = FALSE /\ done' = "no"
       /\ bad' = -1 /\ q' = Tail(q)
  /\ xerr' = Broken /\ open' = 0
  /\ UNCHANGED <<p, f, w, fbits, ftog, how, last, nops>>

(* The rest of the frame is never transmitted.  The line is idle here, so  *)
(* the next edge is the rising edge after a gap.                           *)
Cut ==
  /\ q # <<>> /\ bad = 0 /\ how = "abort"
  /\ q' = <<>> /\ bad' = -1 /\ clean' = FALSE /\ done' = "no"
  /\ res' = NoRes /\ xerr' = ""
  /\ UNCHANGED <<p, f, w, dec, m, fbits, ftog, how, last, open, nops, hist>>

Next ==
  \/ Send
  \/ EmitGap \/ EmitJoin \/ EmitMark \/ EmitDist \/ EmitHalf \/ EmitRaw \/ EmitBad \/ Cut

Spec == Init /\ [][Next]_vars

(*------------------------------ properties -------------------------------*)

DecTypeOK ==
  /\ dec.st \in {"Idle","Recv","Repeat","Done","Data","Address","Addr","Div","Cmd",
                 "Lead","Pause","Hdr","Trail"}
  /\ \A i \in 1..Len(dec.buf) : dec.buf[i] \in {0, 1}
  /\ dec.par \in {0, 1} /\ dec.tog \in {0, 1} /\ dec.ok \in BOOLEAN

(* Between two events the receiver is always ready for more: finished and  *)
(* failed frames have been reported and forgotten.                         *)
NeverStuck == DecState(dec) \in {"Idle", "Receiving"}

(* A frame in tolerance is reported on its final edge, as sent, whatever   *)
(* the receiver has seen before (Apple: if it is one of Apple's).          *)
Deliverable(b) == p = "apple" => AppleValid(b)

Delivered ==
  done = "frame" =>
     IF Deliverable(fbits)
     THEN /\ res.k = "cmd" /\ res.bits = fbits /\ res.rep = 0
          /\ p = "rc6" => res.tog = ftog
     ELSE res.k = "none"

(* Nothing else is ever reported as a command (noise, and biphase frames   *)
(* run together, could imitate a frame, so this is stated without them).   *)
(* A frame that follows a broken one without a gap may be reported, or be  *)
(* taken for the rest of the broken one; it is never mixed with it.        *)
NoPhantom ==
  ("noise" \notin KINDS /\ res.k = "cmd" /\ ~(p \in {"rc5", "rc6"} /\ "splice" \in KINDS)) =>
     IF res.rep = 1 THEN done = "repeat" \/ how = "splice" ELSE done \in {"frame", "maybe"} /\ res.bits = fbits

Quiet == KINDS \cap {"noise", "splice"} = {}

(* A repeat code refers to the frame before it, if that was complete.      *)
RepeatFaithful ==
  (Quiet /\ done = "repeat") =>
     IF last.ok /\ Deliverable(last.bits) THEN res.k = "cmd" /\ res.rep = 1 /\ res.bits = last.bits
                ELSE res.k = "none"

(* A broken frame is signalled once, on the edge that shows it broken;     *)
(* nothing else is an error.                                               *)
ErrorsRight ==
  Quiet => (IF res.k = "err" THEN res.e ELSE "") = xerr
===============================================================================
