------------------------------- MODULE GenPhase -------------------------------
(***************************************************************************)
(* Frames with nominal pulse lengths, sampled by a clock of frequency f at *)
(* any phase.  Each behaviour is one frame; the polling adapter and the    *)
(* decoder of the specification must report it, and the real code has to   *)
(* do the same.                                                            *)
(***************************************************************************)
EXTENDS IrFrames, IrAdapters, Json, FiniteSets

CONSTANTS PROTOS, FREQS, FRAMES

VARIABLES p, f, ph, n, got, want

vars == <<p, f, ph, n, got, want>>

(* Number of samples before time us, in a clock that is ph/16 of a period  *)
(* ahead.                                                                  *)
Samples(us) == (Ticks(16 * us, f) + ph) \div 16

(* Edges of a frame at nominal times: <<rising?, microseconds>>.           *)
RECURSIVE Times(_, _, _, _, _)
Times(fr, k, rise, t, acc) ==
  IF k > Len(fr) THEN acc
  ELSE LET s == fr[k] IN
       CASE s.k = "gap"  -> Times(fr, k + 1, 0, 0, Append(acc, <<TRUE, 0>>))
         [] s.k = "mark" -> Times(fr, k + 1, rise, rise + s.us, Append(acc, <<FALSE, rise + s.us>>))
         [] s.k = "dist" -> Times(fr, k + 1, rise + Nominal(p)[s.c], rise + Nominal(p)[s.c],
                                  Append(acc, <<TRUE, rise + Nominal(p)[s.c]>>))
         [] s.k = "half" -> Times(fr, k + 1, rise, t + Nominal(p)[s.c],
                                  Append(acc, <<s.e, t + Nominal(p)[s.c]>>))

(* What the samples look like: <<level, polls since the last change>>.     *)
Polls(ts, idle) ==
  [k \in 1..Len(ts) |->
     <<ts[k][1], IF k = 1 THEN idle ELSE Samples(ts[k][2]) - Samples(ts[k - 1][2])>>]

RECURSIVE Run(_, _, _, _, _)
Run(w, d, evs, k, acc) ==
  IF k > Len(evs) THEN acc
  ELSE LET x == TLCEval(DecStep(p, w, d, evs[k][1], evs[k][2])) IN
       Run(w, RecvNext(p, x), evs, k + 1, Append(acc, RecvResult(p, x)))

RandBits(k) == TLCEval([i \in 1..k |-> RandomElement({0, 1})])
Content ==
  LET b == RandBits(NBits(p)) IN
  CASE p = "rc5" -> [b EXCEPT ![1] = 1]
    [] p = "apple" ->
         LET v == <<1,1,1,1,1,1,0,0,0,0,1>>
             c == TLCEval([i \in 1..32 |-> IF i \in 6..16 THEN v[i - 5] ELSE b[i]])
         IN IF Ones(c) % 2 = 1 THEN c ELSE [c EXCEPT ![17] = 1 - c[17]]
    [] OTHER -> b

Init == /\ p \in PROTOS /\ f \in FREQS /\ ph \in 0..15 /\ n = 0 /\ got = NoRes /\ want = <<>>

B01(b) == IF b THEN 1 ELSE 0
Final(outs) == LET S == {k \in 1..Len(outs) : outs[k] # NoRes}
               IN IF Cardinality(S) = 1 THEN outs[CHOOSE k \in S : TRUE] ELSE NoRes

Sampled(b, t, w, evs, outs) ==
  /\ got' = Final(outs)
  /\ want' = b
  /\ PrintT("CASE " \o ToJson([p |-> p, f |-> f,
       ev |-> [k \in 1..Len(evs) |-> <<B01(evs[k][1]), evs[k][2], Show(p, outs[k])>>]]))

Go(b, t, w, evs) == Sampled(b, t, w, evs, Run(w, DecInit(p), evs, 1, <<>>))

Next ==
  /\ n < FRAMES /\ n' = n + 1
  /\ UNCHANGED <<p, f, ph>>
  /\ \E b \in {Content}, t \in {RandomElement({0, 1})}, w \in {Windows(p, f)} :
       \E evs \in {Polls(Times(Frame(p, b, t), 1, 0, 0, <<>>), 50 * MaxHi(w))} :
         Go(b, t, w, evs)

Spec == Init /\ [][Next]_vars

Received == n > 0 => got.k = "cmd" /\ got.bits = want /\ got.rep = 0
===============================================================================
