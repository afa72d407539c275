------------------------------ MODULE IrCapture -------------------------------
(***************************************************************************)
(* Recorded signals (value change dumps) and the program that reads them   *)
(* (examples/vcd-parser).  A file is a header - the time unit, the number  *)
(* of units that one tick lasts - and records:                             *)
(*   <<"t", n>>   from here on the time is n ticks                         *)
(*   <<"i", v>>   the signal of the receiver takes the value v             *)
(*   <<"w", v>>   some other signal does                                   *)
(* Values are "0", "1", "x" and "z"; only "1" is a mark.  Every record of  *)
(* the receiver's signal is an edge, timed from the record before it (the  *)
(* first: from time zero).                                                 *)
(***************************************************************************)
EXTENDS IrDecoders, TLC

Resolution(unit, n) == (IF unit = "us" THEN 1000000 ELSE 1000) \div n

(* The reader.                                                             *)
ReadInit == [clock |-> 0, prev |-> 0, ev |-> <<>>]
ReadRec(s, rec) ==
  CASE rec[1] = "t" -> [s EXCEPT !.clock = rec[2]]
    [] rec[1] = "i" -> [s EXCEPT !.prev = s.clock, !.ev = <<(<<rec[2] = "1", s.clock - s.prev>>)>>]
    [] OTHER -> s

(* The reader with the receiver that it feeds: what comes out of a record. *)
CapInit(p) == [rd |-> ReadInit, dec |-> DecInit(p), out |-> <<>>]
CapRec(p, w, c, rec) ==
  LET r == TLCEval(ReadRec([c.rd EXCEPT !.ev = <<>>], rec)) IN
  IF r.ev = <<>> THEN [c EXCEPT !.rd = r, !.out = <<>>]
  ELSE LET d == TLCEval(DecStep(p, w, c.dec, r.ev[1][1], r.ev[1][2]))
       IN [rd |-> r, dec |-> RecvNext(p, d), out |-> Show(p, RecvResult(p, d))]
===============================================================================
