------------------------------ MODULE MCCapture -------------------------------
(***************************************************************************)
(* A recorder writes what happens on two lines; the reader gets the file.  *)
(* The recorder may write a time stamp more often than needed, and records *)
(* other signals in between.  The edges of the receiver's signal reach the *)
(* receiver as they happened.                                              *)
(***************************************************************************)
EXTENDS IrCapture

CONSTANTS MAXT, MAXREC

VARIABLES now,      \* real time
          stamped,  \* the time in the file so far
          level,    \* of the receiver's signal
          since,    \* real time of its last edge
          edge,     \* the last step was this edge (<<>>: none)
          rd, n

vars == <<now, stamped, level, since, edge, rd, n>>

Init == now = 0 /\ stamped = 0 /\ level = FALSE /\ since = 0 /\ edge = <<>> /\ rd = ReadInit /\ n = 0

Write(rec) == rd' = ReadRec([rd EXCEPT !.ev = <<>>], rec) /\ n < MAXREC /\ n' = n + 1

Wait == /\ now < MAXT /\ now' = now + 1 /\ edge' = <<>> /\ rd' = [rd EXCEPT !.ev = <<>>]
        /\ UNCHANGED <<stamped, level, since, n>>
StampIt == /\ Write(<<"t", now>>) /\ stamped' = now /\ edge' = <<>> /\ UNCHANGED <<now, level, since>>
Other == /\ stamped = now /\ \E v \in {"0", "1", "x"} : Write(<<"w", v>>)
         /\ edge' = <<>> /\ UNCHANGED <<now, stamped, level, since>>
Edge == /\ stamped = now
        /\ \E v \in {"0", "1", "x", "z"} :
             /\ Write(<<"i", v>>)
             /\ level' = (v = "1")
             /\ edge' = <<v = "1", now - since>>
        /\ since' = now
        /\ UNCHANGED <<now, stamped>>

Next == Wait \/ StampIt \/ Other \/ Edge
Spec == Init /\ [][Next]_vars

AsItHappened == rd.ev = IF edge = <<>> THEN <<>> ELSE <<edge>>
NeverAhead == rd.clock <= now /\ rd.prev <= rd.clock /\ rd.prev = since
===============================================================================
