-------------------------------- MODULE MCPoll --------------------------------
(***************************************************************************)
(* Periodic polling against the line itself.  The line changes; the user   *)
(* polls, and a read of the pin may fail.  Ghosts count the polls since    *)
(* the last change that was seen.                                          *)
(***************************************************************************)
EXTENDS IrAdapters, TLC

CONSTANTS CM,         \* modulus of the poll counter
          MAXSINCE,   \* most polls between two changes (< CM)
          MAXFAIL     \* most failed reads between two changes

VARIABLES ps,     \* the adapter
          line,   \* level that the last successful read saw
          since,  \* successful polls since it changed
          fails,
          ev,     \* what the adapter handed on in the last step
          want    \* what it should have

vars == <<ps, line, since, fails, ev, want>>

Init == ps = PollInit /\ line = FALSE /\ since = 0 /\ fails = 0 /\ ev = <<>> /\ want = <<>>

Poll(lv) ==
  /\ lv = line => since + 1 < MAXSINCE
  /\ \E r \in {PollStep(ps, lv, CM)} : ps' = r.st /\ ev' = r.ev
  /\ want' = IF lv = line THEN <<>> ELSE <<lv, since + 1>>
  /\ line' = lv
  /\ since' = IF lv = line THEN since + 1 ELSE 0
  /\ fails' = IF lv = line THEN fails ELSE 0

(* The read fails: the user gets the error, the receiver sees nothing.     *)
FailedPoll ==
  /\ fails < MAXFAIL /\ fails' = fails + 1
  /\ ev' = <<>> /\ want' = <<>>
  /\ UNCHANGED <<ps, line, since>>

Next == (\E lv \in BOOLEAN : Poll(lv)) \/ FailedPoll
Spec == Init /\ [][Next]_vars

(* Exactly the changes of the line are handed on, each with the number of  *)
(* successful polls since the one before, wherever the counter stands.     *)
PollRight == ev = want
===============================================================================
