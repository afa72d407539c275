------------------------------- MODULE MCCustom -------------------------------
(***************************************************************************)
(* A front end, its user, and a decoder that keeps count of what it has    *)
(* been given: the front end must neither lose, invent, reorder nor alter  *)
(* events and answers, whatever the decoder answers.                       *)
(***************************************************************************)
EXTENDS IrCustom, FiniteSets

CONSTANTS KIND, CM, ARGS, ANSWERS, MAXCALLS, SLOTS

VARIABLES fs,      \* the front end
          since,   \* per slot: events since the decoder was new or reset
          over,    \* per slot: the decoder has ended and was not reset
          bad,     \* a decoder was given an event after its end
          handed,  \* events handed on
          called,  \* calls: <<level, argument, failed>>
          said,    \* per call the answers
          told     \* per call the outcomes

vars == <<fs, since, over, bad, handed, called, said, told>>

Slots == 1..SLOTS

Init ==
  /\ fs = FrontInit /\ since = [s \in Slots |-> 0] /\ over = [s \in Slots |-> FALSE] /\ bad = FALSE
  /\ handed = <<>> /\ called = <<>> /\ said = <<>> /\ told = <<>>

Report(a) == IF KIND \in {"buf", "multi"} THEN CommandOnly(a) ELSE Outcome(a)

Call(lv, x, as) ==
  \E r \in {FrontStep(KIND, fs, lv, x, CM)} :
    /\ fs' = r.st
    /\ called' = Append(called, <<lv, x, FALSE>>)
    /\ IF r.ev = <<>>
       THEN /\ UNCHANGED <<since, over, bad, handed>>
            /\ said' = Append(said, [s \in Slots |-> 0])
            /\ told' = Append(told, [s \in Slots |-> 0])
       ELSE /\ handed' = Append(handed, r.ev)
            /\ bad' = (bad \/ \E s \in Slots : over[s])
            /\ said' = Append(said, as)
            /\ told' = Append(told, [s \in Slots |-> Report(as[s])])
            \* the decoder ends, the front end resets it
            /\ over' = [s \in Slots |-> FALSE]
            /\ since' = [s \in Slots |-> IF Ended(as[s]) THEN 0 ELSE since[s] + 1]

Failed ==
  /\ KIND # "buf"
  /\ called' = Append(called, <<FALSE, 0, TRUE>>)
  /\ said' = Append(said, [s \in Slots |-> 0])
  /\ told' = Append(told, [s \in Slots |-> 0 - 1])
  /\ UNCHANGED <<fs, since, over, bad, handed>>

Next ==
  /\ Len(called) < MAXCALLS
  /\ \/ \E lv \in BOOLEAN, x \in ARGS, as \in [Slots -> ANSWERS] : Call(lv, x, as)
     \/ Failed

Spec == Init /\ [][Next]_vars

(*------------------------------- properties ------------------------------*)
NeverAfterEnd == ~bad

Ok(k) == ~called[k][3]
Good == {k \in 1..Len(called) : Ok(k)}
RECURSIVE Count(_, _)
Count(S, k) == IF k = 0 THEN 0 ELSE Count(S, k - 1) + IF k \in S THEN 1 ELSE 0

(* Level before call k, as the line goes (idle at the start).              *)
LevelBefore(k) ==
  LET E == {j \in 1..(k - 1) : Ok(j)} IN
  IF E = {} THEN FALSE ELSE called[CHOOSE j \in E : \A i \in E : i <= j][1]
Changes == {k \in Good : called[k][1] # LevelBefore(k)}
Source == IF KIND = "poll" THEN Changes ELSE Good

(* As many events as there were calls that had something to tell.          *)
NothingLost == Len(handed) = Cardinality(Source)

(* Polled: the durations add up to the polls until the last change.        *)
RECURSIVE Sum(_)
Sum(n) == IF n = 0 THEN 0 ELSE Sum(n - 1) + handed[n][2]
PolledTime ==
  KIND = "poll" =>
    LET last == IF Changes = {} THEN 0 ELSE CHOOSE k \in Changes : \A j \in Changes : j <= k
    IN Sum(Len(handed)) % CM = Count(Good, last) % CM
Alternating == KIND \in {"poll", "buf"} => \A k \in 1..Len(handed) : handed[k][1] = (k % 2 = 1)

(* A counter that only moves forward: the durations add up to the stamp.   *)
Forward == \A k \in Good : \A j \in Good : j < k => called[j][2] <= called[k][2]
StampedTime ==
  (KIND \in {"plain", "w16"} /\ Forward /\ Good # {} /\ \A k \in Good : called[k][2] < 32768) =>
      Sum(Len(handed)) = called[CHOOSE k \in Good : \A j \in Good : j <= k][2]

(* What is reported is what the decoder said, no more and no less.         *)
Faithful ==
  \A k \in 1..Len(called) : \A s \in Slots :
    IF called[k][3] THEN told[k][s] = 0 - 1 ELSE
         /\ IsCommand(told[k][s]) => told[k][s] = said[k][s]
         /\ IsCommand(said[k][s]) => told[k][s] = said[k][s]
         /\ said[k][s] \in Errors => told[k][s] = (IF KIND \in {"buf", "multi"} THEN 0 ELSE said[k][s])
         /\ said[k][s] \in {0, 1, 2} => told[k][s] = 0
===============================================================================
