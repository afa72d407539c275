------------------------------ MODULE TraceRecv -------------------------------
(***************************************************************************)
(* Runs recorded from the real receivers, checked against the decoders of  *)
(* IrDecoders.  Each line of the file is one run:                          *)
(*   [p, f, ev]  with ev a sequence of <<edge, duration, outcome>>         *)
(* outcome: <<>>, <<"e", kind>> or <<"c", values>>.                        *)
(*                                                                         *)
(* Mode selects the part of the outcome that the property at hand speaks   *)
(* about.                                                                  *)
(***************************************************************************)
EXTENDS IrFrames, Json, TLC

CONSTANTS Mode, File

VARIABLES i, l, dec, ok

Runs == TLCEval(ndJsonDeserialize(File))
WinOf(k) == TLCEval(Windows(Runs[k].p, Runs[k].f))
Wins == TLCEval([k \in 1..Len(Runs) |-> WinOf(k)])

IsCmd(s) == Len(s) = 2 /\ s[1] = "c"
IsErr(s) == Len(s) = 2 /\ s[1] = "e"
CmdPart(s) == IF IsCmd(s) THEN s ELSE <<>>
IsRepeat(p, s) == IsCmd(s) /\ Extra(p) = "r" /\ s[2][Len(Layout(p)) + 1] = 1

(* d: the decoder after the edge, s: what the specification reports,       *)
(* c: what the code reported.                                              *)
(* Mode "resync": a fourth component is what a fresh receiver reported     *)
(* for the same final edge of a frame after an idle gap.                   *)
(* Mode "phantom": a complete frame (or frame and repeat code) with this    *)
(* content ends here, wherever one starts listening.                       *)
RECURSIVE Hear(_, _, _, _)
Hear(k, d, a, b) ==
  LET e == Runs[k].ev[a]
      n == TLCEval(DecStep(Runs[k].p, Wins[k], d, e[1] = 1, e[2]))
  IN IF a = b THEN Show(Runs[k].p, RecvResult(Runs[k].p, n)) ELSE Hear(k, RecvNext(Runs[k].p, n), a + 1, b)
Heard(k, b, c) == \E a \in 1..b : Hear(k, DecInit(Runs[k].p), a, b) = c

Judge(p, d, s, e, c) ==
  CASE Mode = "all"     -> s = c
    [] Mode = "frames"  -> d.st = "Repeat" \/ IsRepeat(p, c) \/ CmdPart(s) = CmdPart(c)
    [] Mode = "phantom" -> IsCmd(c) => s = c \/ Heard(i, l + 1, c)
    [] Mode = "repeat"  -> IF d.st = "Repeat" THEN CmdPart(s) = CmdPart(c) ELSE ~IsRepeat(p, c)
    [] Mode = "errors"  -> (IsErr(s) \/ IsErr(c)) => s = c
    [] Mode = "resync"  -> Len(e) = 4 => d.st = "Done" /\ c = e[4]

Init == /\ i \in 1..Len(Runs) /\ l = 0 /\ ok = TRUE /\ dec = DecInit(Runs[i].p)

Step(p, e, d) ==
  /\ dec' = RecvNext(p, d)
  /\ ok' = Judge(p, d, Show(p, RecvResult(p, d)), e, e[3])

Next ==
  /\ ok /\ l < Len(Runs[i].ev)
  /\ l' = l + 1 /\ i' = i
  /\ LET e == Runs[i].ev[l + 1] IN
     Step(Runs[i].p, e, DecStep(Runs[i].p, Wins[i], dec, e[1] = 1, e[2]))

Spec == Init /\ [][Next]_<<i, l, dec, ok>>

Accepted == ok
===============================================================================
