-------------------------------- MODULE IrRound -------------------------------
(***************************************************************************)
(* Encoder, air, receiver.  Commands are encoded one after the other; the  *)
(* entries of a pulse train may be rounded down or up to a tick; the train *)
(* is fed to a receiver of the same protocol and frequency.                *)
(***************************************************************************)
EXTENDS IrSend

CONSTANTS PROTOS, FREQS, MAXCMDS

VARIABLES p, f, w, dec,
          q,       \* <<edge, microseconds>> still to come
          sent,    \* [bits, tog] of the command on the air
          got,     \* what the receiver reported since it was started
          n, hist

vars == <<p, f, w, dec, q, sent, got, n, hist>>

Contents(pr) == {b \in [1..NBits(pr) -> {0, 1}] : Encodable(pr, b)}
Togs(pr) == IF pr = "rc6" THEN {0, 1} ELSE {0}
Pick(S) == S
Round(us) == {Ticks(us, f), Ticks(us, f) + (IF Exact(us, f) THEN 0 ELSE 1)}
Keeping == FALSE

Init == /\ p \in PROTOS /\ f \in FREQS /\ w = TLCEval(Windows(p, f))
        /\ dec = DecInit(p) /\ q = <<>> /\ sent = [b |-> <<>>, g |-> 0] /\ got = <<>> /\ n = 0 /\ hist = <<>>

Queue(us, idle) ==
  [k \in 1..Len(us) |-> <<k % 2 = 1, IF k = 1 THEN idle ELSE us[k]>>]

Encode ==
  /\ q = <<>> /\ n < MAXCMDS /\ n' = n + 1
  /\ \E b \in Contents(p), g \in Pick(Togs(p)) :
     \E us \in {TrainUs(p, b, g)} :
       /\ sent' = [b |-> b, g |-> g]
       /\ q' = Queue(us, -1)
       /\ hist' = IF Keeping THEN Append(hist, <<Fields(p, b, 0, g), us>>) ELSE hist
  /\ got' = <<>>
  /\ UNCHANGED <<p, f, w, dec>>

Hear(edge, dt) ==
  \E d \in {DecStep(p, w, dec, edge, dt)} :
    /\ dec' = RecvNext(p, d)
    /\ got' = IF RecvResult(p, d).k = "none" THEN got ELSE Append(got, RecvResult(p, d))

Air ==
  /\ q # <<>> /\ q' = Tail(q)
  /\ IF Head(q)[2] = -1
     THEN \E g \in Pick(Gaps(w)) : Hear(TRUE, g)
     ELSE \E x \in Pick(Round(Head(q)[2])) : Hear(Head(q)[1], x)
  /\ UNCHANGED <<p, f, w, sent, n, hist>>

Next == Encode \/ Air
Spec == Init /\ [][Next]_vars

(* When the last edge is out, exactly the command sent has been reported.  *)
RoundTrip ==
  (q = <<>> /\ n > 0) =>
     /\ Len(got) = 1
     /\ got[1].k = "cmd" /\ got[1].bits = sent.b /\ got[1].rep = 0
     /\ p = "rc6" => got[1].tog = sent.g
(* And nothing is reported before it is completely on the air.             *)
NotEarly == Len(q) > 2 => got = <<>>
===============================================================================
