------------------------------- MODULE IrCustom -------------------------------
(***************************************************************************)
(* Receivers of a protocol of the user's own.  The decoder is any state    *)
(* machine that obeys the decoder contract; here it is one whose answers   *)
(* are chosen freely.  Specified is what a front end does with it: which   *)
(* events it hands on for a call of its user, what it reports, and when    *)
(* it resets the decoder.                                                  *)
(*                                                                         *)
(* Answers and outcomes are integers:                                      *)
(*   0 Idle (outcome: nothing)     1 Receiving     2 Done without command  *)
(*   3..6 an error: address, data, validation, remote control              *)
(*   10+v Done with command v      -k (outcome) pin error k               *)
(***************************************************************************)
EXTENDS IrAdapters, TLC

Errors == 3..6
IsCommand(x) == x >= 10
Ended(ans) == ans >= 2
Outcome(ans) == IF ans \in {0, 1, 2} THEN 0 ELSE ans

(* Buffers and multi receivers pass on commands only.                      *)
CommandOnly(ans) == IF IsCommand(ans) THEN ans ELSE 0

(*---------------------------- from calls to events -----------------------*)
(* Kinds of front end:                                                     *)
(*   "dur"    told levels and durations                                    *)
(*   "plain"  told levels and time stamps of a counter that does not wrap  *)
(*   "w16"    the same, a 16 bit counter of the user's own that wraps      *)
(*   "poll"   told levels, one per period                                  *)
(*   "buf"    given a buffer of durations                                  *)
(*   "multi"  told levels and durations, several decoders side by side     *)
Kinds == {"dur", "plain", "w16", "poll", "buf", "multi"}

FrontInit == [prev |-> 0, poll |-> PollInit, n |-> 0]

Wrap16(a, b) == LET d == (b - a) % 65536 IN IF d < 32768 THEN d ELSE 0

(* A call at level lv with argument x (duration, stamp; unused for polls). *)
(* ev is <<>> or the event handed to the decoder.  cm: see PollStep.       *)
FrontStep(kind, s, lv, x, cm) ==
  CASE kind \in {"dur", "multi"} -> [st |-> s, ev |-> <<lv, x>>]
    [] kind = "buf"   -> [st |-> [s EXCEPT !.n = @ + 1], ev |-> <<BufferEdge(s.n), x>>]
    [] kind = "plain" -> [st |-> [s EXCEPT !.prev = x], ev |-> <<lv, IF x >= s.prev THEN x - s.prev ELSE 0>>]
    [] kind = "w16"   -> [st |-> [s EXCEPT !.prev = x], ev |-> <<lv, Wrap16(s.prev, x)>>]
    [] kind = "poll"  -> \* TLCEval: the record is used twice
         LET r == TLCEval(PollStep(s.poll, lv, cm)) IN [st |-> [s EXCEPT !.poll = r.st], ev |-> r.ev]
===============================================================================
