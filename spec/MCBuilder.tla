------------------------------- MODULE MCBuilder ------------------------------
(* All lists of builder calls up to N over a few values of each kind.        *)
EXTENDS IrBuilder, TLC
CONSTANTS N
VARIABLES calls, s

Some == {<<"proto", "nec">>, <<"proto", "rc5">>, <<"freq", "20000">>, <<"freq", "38000">>, <<"pin", "A">>, <<"pin", "B">>,
         <<"mono", "u64">>, <<"mono", "f32">>, <<"remote", "CdPlayer">>, <<"remote", "SpecialForMp3">>}
Init == calls = <<>> /\ s = Fresh
Next == Len(calls) < N /\ \E x \in Some : calls' = Append(calls, x) /\ s' = After(s, x)
Spec == Init /\ [][Next]_<<calls, s>>

LastCounts == s = Declared(calls) /\ s = Means(calls)
OrderIrrelevant ==
  \A k \in 1..(Len(calls) - 1) : MayExchange(calls[k], calls[k + 1]) => Means(Exchanged(calls, k)) = s
===============================================================================
