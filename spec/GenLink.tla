------------------------------- MODULE GenLink --------------------------------
(***************************************************************************)
(* Behaviours of IrLink at real frame sizes, printed as test cases.  Run   *)
(* with -simulate: choices that are too many to enumerate are thinned to   *)
(* one random element.                                                     *)
(***************************************************************************)
EXTENDS IrLink, TLC, Json

CONSTANT Tag

RandBits(n) == TLCEval([i \in 1..n |-> RandomElement({0, 1})])
ConstBits(n, v) == [i \in 1..n |-> v]
OneHot(n) == LET k == RandomElement(1..n) IN TLCEval([i \in 1..n |-> IF i = k THEN 1 ELSE 0])
OneCold(n) == LET k == RandomElement(1..n) IN TLCEval([i \in 1..n |-> IF i = k THEN 0 ELSE 1])
AltBits(n) == [i \in 1..n |-> i % 2]

(* A valid Apple frame: vendor bits in place, parity bit (17th) set so     *)
(* that the number of ones is odd.                                         *)
AppleBits ==
  LET r == RandBits(32)
      v == <<1,1,1,1,1,1,0,0,0,0,1>>                         \* 0x43F, lsb first
      b == TLCEval([i \in 1..32 |-> IF i \in 6..16 THEN v[i - 5] ELSE r[i]])
  IN IF Ones(b) % 2 = 1 THEN b ELSE [b EXCEPT ![17] = 1 - b[17]]

(* Bytes followed by their complement (NEC, SBP) or by themselves.         *)
Mirror(b, i, j, inv) ==
  TLCEval([k \in 1..Len(b) |-> IF k \in j..(j + 7)
                               THEN (IF inv THEN 1 - b[i + k - j] ELSE b[i + k - j]) ELSE b[k]])

Plausible(pr) ==
  LET n == NBits(pr) r == RandBits(n) IN
  CASE pr = "apple"   -> AppleBits
    [] pr = "nec"     -> Mirror(Mirror(r, 1, 9, TRUE), 17, 25, TRUE)
    [] pr = "nec16"   -> Mirror(r, 17, 25, TRUE)
    [] pr = "samsung" -> Mirror(Mirror(r, 1, 9, FALSE), 17, 25, TRUE)
    [] pr = "sbp"     -> Mirror(r, 21, 29, TRUE)
    [] OTHER          -> r

Rc5Start(pr, b) == IF pr = "rc5" THEN [b EXCEPT ![1] = 1] ELSE b

SimBits(pr) ==
  LET n == NBits(pr)
      z == RandomElement(1..10)
      b == TLCEval(CASE z <= 4 -> Plausible(pr)
             [] z \in 5..6 -> RandBits(n)
             [] z = 7 -> OneHot(n)
             [] z = 8 -> OneCold(n)
             [] z = 9 -> ConstBits(n, RandomElement({0, 1}))
             [] OTHER -> AltBits(n))
  IN {TLCEval(Rc5Start(pr, b))}

One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

(* Noise: two consecutive lengths, from boundaries or anywhere.            *)
NoiseLen(ww) == RandomElement(Boundary(ww) \cup {0, 1, 2 * MaxHi(ww), RandomElement(0..MaxHi(ww))})
SimNoise(ww) == {<<RandomElement({TRUE, TRUE, FALSE}), NoiseLen(ww), RandomElement({FALSE, FALSE, TRUE}), NoiseLen(ww)>>}

SimJoin(ww) == {0, 1} \cup Boundary(ww) \cup Stray(ww)

One1(S) == One(S)

(* A length of class c that is at least from: a window edge or anything.   *)
SimGood(ww, c, from) ==
  LET lo == IF ww[c].glo > from THEN ww[c].glo ELSE from
      hi == ww[c].hi
      z  == RandomElement(1..4)
  IN IF lo >= hi THEN {hi}
     ELSE CASE z = 1 -> {lo} [] z = 2 -> {hi}
            [] z = 3 -> {IF ww[c].base >= lo THEN ww[c].base ELSE lo}
            [] z = 4 -> {RandomElement(lo..hi)}

GInit == Init /\ hist = <<>>

Finish ==
  /\ q = <<>> /\ nops = MAXOPS
  /\ PrintT("CASE " \o ToJson([tag |-> Tag, p |-> p, f |-> f, ev |-> hist]))
  /\ nops' = MAXOPS + 1
  /\ UNCHANGED <<p, f, w, dec, res, q, m, fbits, ftog, clean, bad, how, done, last, open, xerr, hist>>

GNext == Next \/ Finish
GSpec == Init /\ [][GNext]_vars
===============================================================================
