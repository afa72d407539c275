------------------------------ MODULE IrCommands ------------------------------
(***************************************************************************)
(* What a command is, apart from how it travels: its number, its protocol  *)
(* independent form, the frame it is packed into.                          *)
(***************************************************************************)
EXTENDS IrDecoders

ProtocolIdOf(p) ==
  CASE p = "nec" -> 1 [] p = "nec16" -> 2 [] p = "samsung" -> 3 [] p = "apple" -> 4
    [] p = "rc5" -> 5 [] p = "rc6" -> 6 [] p = "sbp" -> 7 [] p = "denon" -> 8
    [] OTHER -> 255

IdName ==
  <<"Nec", "Nec16", "NecSamsung", "NecApple", "Rc5", "Rc6", "Sbp", "Denon">>
IdOfNumber(n) == IF n \in 1..8 THEN IdName[n] ELSE "Unknown"
NumberOfId(s) == IF s = "Unknown" THEN 255 ELSE CHOOSE n \in 1..8 : IdName[n] = s

(* Protocols whose commands have a protocol independent form.              *)
Generic == {"nec", "samsung", "apple", "rc5", "rc6", "sbp", "denon"}

(* The protocol independent form of a command with values v (in the order  *)
(* of Layout, then the extra): id, raw bits in words of 16, address,       *)
(* command, repeat.  Apple remotes are addressed by page and command;      *)
(* Denon commands have no known structure, only raw bits.                  *)
AnyOf(p, v) ==
  CASE p \in {"nec", "samsung"} -> <<ProtocolIdOf(p), 0, 0, 0, v[1], v[2], v[3]>>
    [] p = "apple" -> <<4, 0, 0, 0, 0, 128 * v[1] + v[2], v[4]>>
    [] p = "rc5"   -> <<5, 0, 0, 0, v[3], v[4], v[2]>>
    [] p = "rc6"   -> <<6, 0, 0, 0, v[1], v[2], v[3]>>
    [] p = "sbp"   -> <<7, 0, 0, 0, v[1], v[2], 0>>
    [] p = "denon" -> <<8, v[1], v[2], v[3], 0, 0, 0>>

(* Largest address and command number a frame can carry; commands of Apple *)
(* and Denon remotes cannot be made from an address and a number.          *)
MaxAddr(p) == CASE p \in {"nec", "samsung", "rc6"} -> 255 [] p = "rc5" -> 31 [] p = "sbp" -> 65535
                [] OTHER -> -1
MaxCmd(p)  == CASE p \in {"nec", "samsung", "rc6", "sbp"} -> 255 [] p = "rc5" -> 63
                [] OTHER -> -1
CanCreate(p, a, c) == a <= MaxAddr(p) /\ c <= MaxCmd(p)
===============================================================================
