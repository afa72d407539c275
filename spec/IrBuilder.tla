------------------------------- MODULE IrBuilder ------------------------------
(***************************************************************************)
(* The receiver builder.  A call is <<kind, value>> with kind one of       *)
(*   proto  select a protocol (the output becomes its plain commands)      *)
(*   freq   frequency of the clock                                         *)
(*   pin    input pin                                                      *)
(*   mono   clock type                                                     *)
(*   remote attach a remote control (the output becomes buttons)           *)
(* and a setting is what a receiver is constructed from.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fresh == [proto |-> "none", freq |-> "1000000", pin |-> "none", mono |-> "u32", out |-> "none"]

After(s, call) ==
  CASE call[1] = "proto"  -> [s EXCEPT !.proto = call[2], !.out = "plain"]
    [] call[1] = "freq"   -> [s EXCEPT !.freq = call[2]]
    [] call[1] = "pin"    -> [s EXCEPT !.pin = call[2]]
    [] call[1] = "mono"   -> [s EXCEPT !.mono = call[2]]
    [] call[1] = "remote" -> [s EXCEPT !.out = call[2]]

RECURSIVE Means(_)
Means(calls) == IF calls = <<>> THEN Fresh
                ELSE After(Means(SubSeq(calls, 1, Len(calls) - 1)), calls[Len(calls)])

(* The protocol whose commands a remote control understands.               *)
RemoteFor(r) == CASE r = "Apple2009" -> "apple"
                  [] r = "SpecialForMp3" -> "nec"
                  [] r = "SamsungTv" -> "samsung"
                  [] r = "CdPlayer" -> "rc5"
                  [] r = "SamsungBluRayPlayer" -> "sbp"
Remotes == {"Apple2009", "SpecialForMp3", "SamsungTv", "CdPlayer", "SamsungBluRayPlayer"}

(* Settings a receiver can be made from.                                   *)
Buildable(s) == s.proto # "none" /\ s.out # "none" /\ (s.out \in Remotes => RemoteFor(s.out) = s.proto)

(* The same said of the whole list of calls: the last of each kind counts. *)
LastOf(calls, kind, default) ==
  LET S == {k \in 1..Len(calls) : calls[k][1] = kind}
  IN IF S = {} THEN default ELSE calls[CHOOSE k \in S : \A j \in S : j <= k][2]
Outputs(calls) == SelectSeq(calls, LAMBDA x : x[1] \in {"proto", "remote"})
Declared(calls) ==
  [proto |-> LastOf(calls, "proto", "none"), freq |-> LastOf(calls, "freq", "1000000"),
   pin |-> LastOf(calls, "pin", "none"), mono |-> LastOf(calls, "mono", "u32"),
   out |-> LET o == Outputs(calls) IN
           IF o = <<>> THEN "none" ELSE IF o[Len(o)][1] = "proto" THEN "plain" ELSE o[Len(o)][2]]

(* Calls of different kinds may be exchanged, except the two that choose   *)
(* the output.                                                             *)
MayExchange(a, b) == a[1] # b[1] /\ {a[1], b[1]} # {"proto", "remote"}
Exchanged(calls, k) == [calls EXCEPT ![k] = calls[k + 1], ![k + 1] = calls[k]]
===============================================================================
