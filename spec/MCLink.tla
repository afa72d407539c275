-------------------------------- MODULE MCLink --------------------------------
EXTENDS IrLink
(* Small frames, so that every frame content and every corruption is       *)
(* enumerated.                                                             *)
SmallGeo(pr) ==
  CASE pr \in NecFamily -> [bits |-> 3]
    [] pr = "sbp"       -> [abits |-> 2, cbits |-> 2]
    [] pr = "denon"     -> [bits |-> 3]
    [] pr = "rc5"       -> [bits |-> 4]
    [] pr = "rc6"       -> [hdr |-> 4, bits |-> 3]

(* A small stand-in for Apple's vendor id and parity.                      *)
SmallApple(b) == b[2] = 1 /\ Ones(b) % 2 = 1
===============================================================================
