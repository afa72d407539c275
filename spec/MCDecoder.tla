------------------------------ MODULE MCDecoder -------------------------------
(***************************************************************************)
(* Any edges, any lengths, resets and questions at any time.  A second     *)
(* decoder is renewed at every reset of the first and must be              *)
(* indistinguishable from it.                                              *)
(***************************************************************************)
EXTENDS IrContract, IrFrames

CONSTANTS PROTOS, FREQS, MAXEV

VARIABLES p, w, d, s, n

vars == <<p, w, d, s, n>>

SmallGeo(pr) ==
  CASE pr \in NecFamily -> [bits |-> 3]
    [] pr = "sbp"       -> [abits |-> 2, cbits |-> 2]
    [] pr = "denon"     -> [bits |-> 3]
    [] pr = "rc5"       -> [bits |-> 4]
    [] pr = "rc6"       -> [hdr |-> 2, bits |-> 3]
SmallApple(b) == b[1] = 1
SmallFields(pr, b, rep, tog) == <<b, rep, tog>>

Lens == {0, Cap} \cup {w[c].glo : c \in 1..Len(w)} \cup {w[c].hi : c \in 1..Len(w)}

Init == /\ p \in PROTOS /\ \E f \in FREQS : w = Windows(p, f)
        /\ d = DecInit(p) /\ s = DecInit(p) /\ n = 0

Event == /\ n < MAXEV /\ n' = n + 1
         /\ \E e \in BOOLEAN, dt \in Lens :
              d' = DecStep(p, w, d, e, dt) /\ s' = DecStep(p, w, s, e, dt)
         /\ UNCHANGED <<p, w>>
Reset == /\ d' = DecReset(p, d) /\ s' = Renewed(p, d)
         /\ UNCHANGED <<p, w, n>>

Next == Event \/ Reset
Spec == Init /\ [][Next]_vars

TypeOK ==
  /\ DecState(d) \in {"Idle", "Receiving", "Done", "Data", "Address"}
  /\ \A k \in 1..Len(d.buf) : d.buf[k] \in {0, 1}
  /\ Len(d.buf) <= NBits(p)

(* A command is there only in Done, and in Done unless it is a repeat of   *)
(* nothing or not an Apple frame.                                          *)
OnlyDone == HasCmd(p, d) => DecState(d) = "Done"
InDone   == DecState(d) = "Done" => (HasCmd(p, d) \/ (d.st = "Repeat" /\ ~d.ok) \/ p = "apple")

(* A finished decoder offers the same command until its user resets it     *)
(* (biphase decoders also start over on a length that is no pulse).        *)
Sticky == [][DecState(d) = "Done" /\ DecState(d') = "Done" /\ n' > n => Ask(p, d') = Ask(p, d)]_vars

LikeNew == DecState(d) = DecState(s) /\ Ask(p, d) = Ask(p, s)
===============================================================================
