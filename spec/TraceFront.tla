------------------------------ MODULE TraceFront ------------------------------
(***************************************************************************)
(* Runs recorded from the front ends of the real receivers, one per line   *)
(* of the file.  Mode says which of the judgements below applies.          *)
(* Outcomes are <<>>, <<"e", kind>> or <<"c", values>>.                    *)
(***************************************************************************)
EXTENDS IrCommands, IrCustom, Json

CONSTANTS Mode, File

VARIABLES i, ok

Runs == TLCEval(ndJsonDeserialize(File))

IsCmd(s) == Len(s) = 2 /\ s[1] = "c"
Cmds(s) == SelectSeq(s, IsCmd)

(* agree: every front end gives the outcomes of the first one; buffers     *)
(* give its commands.                                                      *)
JudgeAgree(r) ==
  /\ \A k \in 1..Len(r.outs) : r.outs[k] = r.outs[1]
  /\ \A k \in 1..Len(r.bufs) : r.bufs[k] = Cmds(r.outs[1])

(* inst: r.ev[k] = <<h, o, dh, do, outcome, reference>>.  The reference    *)
(* receiver was fed the durations <<dh, do>>.                              *)
JudgeInst(r) ==
  \A k \in 1..Len(r.ev) :
    LET e == r.ev[k]
        a == IF k = 1 THEN <<0, 0>> ELSE <<r.ev[k - 1][1], r.ev[k - 1][2]>>
    IN /\ Delta(r.kind, a, <<e[1], e[2]>>) = <<e[3], e[4]>>
       /\ e[5] = e[6]

(* poll: r.ev[k] = <<level, polls at it, outcome of the first of them,     *)
(* number of others that gave anything, reference, its duration>>.  The    *)
(* line is idle before.                                                    *)
JudgePoll(r) ==
  \A k \in 1..Len(r.ev) :
    LET e == r.ev[k]
        before == IF k = 1 THEN 1 ELSE r.ev[k - 1][2]
    IN IF e[1] = (IF k = 1 THEN 0 ELSE r.ev[k - 1][1])
       THEN e[3] = <<>> /\ e[4] = 0
       ELSE e[3] = e[5] /\ e[4] = 0 /\ e[6] = before

(* pin: r.calls are the outcomes of all calls, <<"pin", code>> if the read *)
(* failed with that code; r.fail[k] is the code the read had to fail with  *)
(* (0: none); r.ref are the outcomes without the failing calls.            *)
Good(r) == SelectSeq([k \in 1..Len(r.calls) |-> k], LAMBDA k : r.fail[k] = 0)
JudgePin(r) ==
  /\ \A k \in 1..Len(r.calls) : r.fail[k] > 0 => r.calls[k] = <<"pin", r.fail[k]>>
  /\ LET g == TLCEval(Good(r)) IN
     /\ Len(g) = Len(r.ref)
     /\ \A k \in 1..Len(g) : r.calls[g[k]] = r.ref[k]

(* multi: r.protos are the slots, r.ev[k] = <<slots, iterator, alone>>:    *)
(* the slots' generic commands (<<>>: empty), what the iterator yielded,   *)
(* and the outcomes of stand alone receivers.                              *)
JudgeMulti(r) ==
  \A k \in 1..Len(r.ev) :
    LET e == r.ev[k] IN
    /\ \A s \in 1..Len(r.protos) :
         e[1][s] = IF IsCmd(e[3][s]) THEN AnyOf(r.protos[s], e[3][s][2]) ELSE <<>>
    /\ e[2] = SelectSeq(e[1], LAMBDA x : x # <<>>)

(* custom: receivers of a protocol of the user's own.  r.ev[k] = <<level,  *)
(* argument, pin error, events handed to each decoder, answers, resets,    *)
(* outcomes>>; r.got is what a buffer iterator yielded.                    *)
RECURSIVE JudgeCalls(_, _, _)
JudgeCalls(r, k, s) ==
  IF k > Len(r.ev) THEN TRUE ELSE
  LET e == r.ev[k]
      n == TLCEval(FrontStep(r.kind, s, e[1] = 1, e[2], 2147483647))
      want == IF n.ev = <<>> THEN <<>> ELSE <<(<<IF n.ev[1] THEN 1 ELSE 0, n.ev[2]>>)>>
  IN IF e[3] > 0
     THEN /\ \A q \in 1..r.slots : e[4][q] = <<>> /\ e[7][q] = 0 - e[3]
          /\ JudgeCalls(r, k + 1, s)
     ELSE /\ \A q \in 1..r.slots :
               /\ e[4][q] = want
               /\ r.kind = "buf" \/
                  IF n.ev = <<>> THEN e[7][q] = 0 ELSE
                  /\ e[6][q] = IF Ended(e[5][q]) THEN 1 ELSE 0
                  /\ e[7][q] = IF r.kind = "multi" THEN CommandOnly(e[5][q]) ELSE Outcome(e[5][q])
          /\ JudgeCalls(r, k + 1, n.st)
JudgeCustom(r) ==
  /\ JudgeCalls(r, 1, FrontInit)
  /\ r.got = IF r.kind # "buf" THEN <<>>
             ELSE SelectSeq([k \in 1..Len(r.ev) |-> r.ev[k][5][1]], IsCommand)

Judge(r) ==
  CASE Mode = "agree" -> JudgeAgree(r)
    [] Mode = "inst"  -> JudgeInst(r)
    [] Mode = "poll"  -> JudgePoll(r)
    [] Mode = "pin"   -> JudgePin(r)
    [] Mode = "multi" -> JudgeMulti(r)
    [] Mode = "custom" -> JudgeCustom(r)

Init == i \in 1..Len(Runs) /\ ok = Judge(Runs[i])
Next == FALSE /\ UNCHANGED <<i, ok>>
Spec == Init /\ [][Next]_<<i, ok>>

Accepted == ok
===============================================================================
