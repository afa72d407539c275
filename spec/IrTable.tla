------------------------------- MODULE IrTable --------------------------------
(***************************************************************************)
(* The reachable control graph of the decoders of IrDecoders at real frame *)
(* sizes, printed transition by transition, together with the windows and  *)
(* field layouts.  The harness executes these tables next to the real code *)
(* and so judges millions of events by this specification.                 *)
(*                                                                         *)
(* Received bits do not influence control, so a state is represented with  *)
(* an all-zero buffer; the effect of a transition on the buffer is printed *)
(* as K (keep), C (clear), 0/1 (append), S (clear, then append 1), and its *)
(* effect on the mark in progress as K (keep), Z (zero), D (the new        *)
(* duration).                                                              *)
(***************************************************************************)
EXTENDS IrFrames, TLC

CONSTANTS PROTOS, FREQS

VARIABLES p, d

F0 == 1000000
Zeros(n) == [i \in 1..n |-> 0]
Canon(x) == [x EXCEPT !.buf = Zeros(Len(x.buf)), !.save = 0]

B(b) == IF b THEN "1" ELSE "0"
Id(x) == x.st \o "/" \o ToString(Len(x.buf)) \o "/" \o B(x.ok) \o "/" \o ToString(x.par)
         \o "/" \o ToString(x.tog)

Save0 == 1
Dur == 77                                   \* a duration told apart from Save0 and 0
Rep(w, c) == IF c = 0 THEN MaxHi(w) + 100 ELSE w[c].hi
Marked(pr, x) == [x EXCEPT !.save = IF pr \in PulseDist THEN Save0 ELSE 0]

(* The duration that makes this edge end a pulse of class c.               *)
DurOf(pr, w, edge, c) ==
  CASE pr \in Biphase          -> Rep(w, c)
    [] pr \in PulseDist /\ edge -> Rep(w, c) - Save0
    [] OTHER                   -> Dur

BufOp(old, new) ==
  CASE new = old                                      -> "K"
    [] new = <<>>                                     -> "C"
    [] Len(new) = Len(old) + 1 /\ SubSeq(new, 1, Len(old)) = old -> ToString(new[Len(new)])
    [] new = <<1>>                                    -> "S"
SaveOp(pr, new, dt) == CASE pr \in Biphase -> "K" [] new = Save0 -> "K" [] new = 0 -> "Z"
                         [] new = dt -> "D"

Emit(kind, edge, c, x, dt) ==
  PrintT("T " \o p \o " " \o Id(d) \o " " \o kind \o " " \o B(edge) \o " " \o ToString(c)
         \o " " \o Id(Canon(x)) \o " " \o BufOp(d.buf, x.buf) \o " " \o SaveOp(p, x.save, dt))

Classes(pr, edge) == IF pr \in Biphase \/ edge THEN 0..Len(Nominal(pr)) ELSE {0}

Kind(x) ==
  "S " \o p \o " " \o Id(x) \o " " \o DecState(x) \o " "
  \o (CASE x.st = "Done" -> "cmd" [] x.st = "Repeat" /\ x.ok -> "rep"
        [] x.st = "Repeat" /\ ~x.ok -> "norep" [] OTHER -> "-")
  \o " " \o ToString(x.tog)

Lay(pr, i) == LET l == Layout(pr)[i] IN
  "L " \o pr \o " " \o l.n \o " " \o ToString(l.at) \o " " \o ToString(l.len) \o " " \o ToString(l.msb)

Init ==
  /\ p \in PROTOS /\ d = DecInit(p)
  /\ \A f \in FREQS : \A c \in 1..Len(Nominal(p)) :
       PrintT("W " \o p \o " " \o ToString(f) \o " " \o ToString(c) \o " "
              \o ToString(Windows(p, f)[c].lo) \o " " \o ToString(Windows(p, f)[c].hi) \o " "
              \o ToString(Windows(p, f)[c].base) \o " " \o ToString(Windows(p, f)[c].glo))
  /\ \A i \in 1..Len(Layout(p)) : PrintT(Lay(p, i))
  /\ PrintT("X " \o p \o " " \o ToString(NBits(p)) \o " "
            \o (IF Extra(p) = "" THEN "-" ELSE Extra(p)))
  /\ \A k \in 1..Len(Pairs(p)) :
       PrintT("P " \o p \o " " \o ToString(Pairs(p)[k].i) \o " " \o ToString(Pairs(p)[k].j)
              \o " " \o ToString(Pairs(p)[k].inv))

StepTo(edge, c, x, dt) == Emit("E", edge, c, x, dt) /\ d' = Canon(x)
StepW(w, edge, c) ==
  StepTo(edge, c, DecStep(p, w, Marked(p, d), edge, DurOf(p, w, edge, c)), DurOf(p, w, edge, c))

Next ==
  /\ p' = p
  /\ \/ \E edge \in BOOLEAN : \E c \in Classes(p, edge) : StepW(Windows(p, F0), edge, c)
     \/ /\ Emit("R", FALSE, 0, DecReset(p, Marked(p, d)), Dur)
        /\ d' = Canon(DecReset(p, d))
     \/ /\ PrintT(Kind(d)) /\ UNCHANGED d

Spec == Init /\ [][Next]_<<p, d>>
===============================================================================
