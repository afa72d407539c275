------------------------------- MODULE TraceSend ------------------------------
(***************************************************************************)
(* Recorded from the real encoders and the real sender, one run per line.  *)
(* Mode "train": [p, f, b (bits), g, t (the train)].                       *)
(* Mode "send": [t (trains loaded), ops]: ops are <<"l", number of train,  *)
(* carrier>> and <<"t", carrier>>.                                         *)
(* Mode "round": [p, cmds (values encoded), got (outcomes)].               *)
(***************************************************************************)
EXTENDS IrSend, Json

CONSTANTS Mode, File
VARIABLES i, ok

Runs == TLCEval(ndJsonDeserialize(File))

JudgeTrain(r) == Encodable(r.p, r.b) /\ TrainOK(r.t, TrainUs(r.p, r.b, r.g), r.f)

(* The sender of IrSend runs along; MCSend shows that it is the ideal one. *)
CM == 1073741824
Op(r, x, k) ==
  LET o == r.ops[k]
      y == IF o[1] = "l" THEN SendLoad(x.s, r.t[o[2]]) ELSE SendTick(x.s, CM)
  IN TLCEval([s |-> y, ok |-> x.ok /\ (o[Len(o)] = 1) = y.on])
JudgeSend(r) ==
  FoldLeft(LAMBDA x, k : Op(r, x, k), [s |-> SendInit, ok |-> TRUE], [k \in 1..Len(r.ops) |-> k]).ok

JudgeRound(r) == r.got = [k \in 1..Len(r.cmds) |-> <<"c", r.cmds[k]>>]

Judge(r) == CASE Mode = "train" -> JudgeTrain(r)
              [] Mode = "send"  -> JudgeSend(r)
              [] Mode = "round" -> JudgeRound(r)

Init == i \in 1..Len(Runs) /\ ok = Judge(Runs[i])
Next == FALSE /\ UNCHANGED <<i, ok>>
Spec == Init /\ [][Next]_<<i, ok>>
Accepted == ok
===============================================================================
