------------------------------- MODULE MCMulti --------------------------------
EXTENDS IrMulti
CONSTANT Which
Tuples ==
  CASE Which = 1 -> {<<"nec", "samsung">>}
    [] Which = 2 -> {<<"sbp", "nec">>}
    [] Which = 3 -> {<<"rc5", "rc6">>}
    [] Which = 4 -> {<<"denon", "apple">>}
    [] Which = 5 -> {<<"nec", "rc5", "nec">>}
    [] Which = 6 -> {<<"sbp", "denon", "samsung", "rc6">>}
SmallGeo(pr) ==
  CASE pr \in NecFamily -> [bits |-> 2]
    [] pr = "sbp"       -> [abits |-> 1, cbits |-> 2]
    [] pr = "denon"     -> [bits |-> 2]
    [] pr = "rc5"       -> [bits |-> 3]
    [] pr = "rc6"       -> [hdr |-> 4, bits |-> 2]
SmallApple(b) == b[2] = 1 /\ Ones(b) % 2 = 1
SmallLengths(ww, c, from) == {y \in {ww[c].glo, ww[c].hi} : y >= from}
SmallBad(ww) == {0, MaxHi(ww) + 1}
===============================================================================
