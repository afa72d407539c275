-------------------------------- MODULE MCRound -------------------------------
EXTENDS IrRound
SmallGeo(pr) ==
  CASE pr \in NecFamily -> [bits |-> 3]
    [] pr = "rc5"       -> [bits |-> 5]
    [] pr = "rc6"       -> [hdr |-> 4, bits |-> 3]
    [] OTHER            -> [bits |-> 3]
NoPairs(pr) == <<>>
===============================================================================
