-------------------------------- MODULE GenData -------------------------------
(***************************************************************************)
(* Commands, identifiers and remote controls: the specification's answers, *)
(* for replay, and its own consistency.                                    *)
(***************************************************************************)
EXTENDS IrRemotes, FiniteSets, Json

CONSTANTS RANDOM      \* random cases per protocol
VARIABLE k
vars == <<k>>

RandBits(n) == TLCEval([j \in 1..n |-> RandomElement({0, 1})])
Copy(b, pr) ==
  LET at(x) == {j \in 1..Len(Pairs(pr)) : x \in Pairs(pr)[j].j .. (Pairs(pr)[j].j + 7)}
  IN TLCEval([x \in 1..Len(b) |->
       IF at(x) = {} THEN b[x]
       ELSE LET q == Pairs(pr)[CHOOSE j \in at(x) : TRUE]
                y == b[q.i + x - q.j]
            IN IF q.inv = 1 THEN 1 - y ELSE y])
Flip(b) == LET j == RandomElement(1..Len(b)) IN TLCEval([b EXCEPT ![j] = 1 - b[j]])
BitsOf(p) == IF p = "sbp" THEN 36 ELSE Geo(p).bits
B(x) == IF x THEN 1 ELSE 0

(* addresses and command numbers around the limits                         *)
Probe(S) == {n \in UNION {{m - 1, m, m + 1} : m \in S} : n >= 0}
Numbers == Probe({0, 1, 7, 15, 20, 31, 32, 63, 64, 127, 128, 255, 256, 257, 65535, 65536, 65537, 16777216,
                  2147483646}) \cup {RandomElement(0..65535) : j \in 1..4}

Ids == \A n \in 0..255 : PrintT("I " \o ToString(n) \o " " \o IdOfNumber(n))
Creates ==
  \A p \in Generic \ {"denon"}, a \in Numbers, c \in Numbers :
    PrintT("C " \o p \o " " \o ToString(a) \o " " \o ToString(c) \o " " \o ToString(B(CanCreate(p, a, c))))
Tables ==
  \A r \in Remotes :
    /\ PrintT("R " \o r \o " " \o RemoteProto(r) \o " " \o ToString(RemoteAddr(r)) \o " " \o DeviceType(r))
    /\ \A j \in 1..Len(Table(r)) : PrintT("D " \o r \o " " \o ToString(Table(r)[j][1]) \o " " \o DecodeR(r, RemoteAddr(r), Table(r)[j][1]))
    /\ \A act \in {Table(r)[j][2] : j \in 1..Len(Table(r))} : PrintT("E " \o r \o " " \o act \o " " \o ToString(EncodeR(r, act)))

Labels == \A j \in DOMAIN Names : PrintT("N " \o Names[j][1] \o " " \o ActionName(Names[j][1]))

(* A frame (valid, almost valid, any) with its fields, verdict and generic *)
(* form.                                                                   *)
Frames(p) ==
  \E b0 \in {RandBits(BitsOf(p))} : \E b1 \in {Copy(b0, p)} :
  \E b \in {<<b0, b1, Flip(b1)>>[RandomElement(1..3)]} : \E g \in {RandomElement({0, 1})} :
    PrintT("CASE " \o ToJson([p |-> p, b |-> b, g |-> g, v |-> Fields(p, b, g, g), ok |-> B(FrameValid(p, b)),
      any |-> IF p \in Generic THEN AnyOf(p, Fields(p, b, g, g)) ELSE <<>>]))
(* Apple frames are rarely valid: make some.                               *)
AppleBits == <<1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1>>      \* 0x43f, least significant bit first
AppleFrame ==
  \E b0 \in {RandBits(32)} :
  \E b1 \in {TLCEval([x \in 1..32 |-> IF x \in 6..16 THEN AppleBits[x - 5] ELSE b0[x]])} :
  \E b \in {<<b1, Flip(b1)>>[RandomElement(1..2)]} : \E g \in {RandomElement({0, 1})} :
    PrintT("CASE " \o ToJson([p |-> "apple", b |-> b, g |-> g, v |-> Fields("apple", b, g, g),
       ok |-> B(FrameValid("apple", b)), any |-> AnyOf("apple", Fields("apple", b, g, g))]))

Init == k = 0
Next ==
  /\ k <= RANDOM /\ k' = k + 1
  /\ IF k = 0 THEN Ids /\ Creates /\ Tables /\ Labels
     ELSE (\A p \in Protos : Frames(p)) /\ AppleFrame
Spec == Init /\ [][Next]_vars

(* consistency of the specification                                        *)
IdsInverse == \A n \in 0..255 : IdOfNumber(n) # "Unknown" => NumberOfId(IdOfNumber(n)) = n
RemotesInverse ==
  /\ NamesDiffer /\ AllNamed
  /\ \A r \in Remotes :
      /\ r \in BuiltIn => \A i, j \in 1..Len(Table(r)) : Table(r)[i][1] = Table(r)[j][1] => i = j
      /\ \A j \in 1..Len(Table(r)) :
           LET e == EncodeR(r, Table(r)[j][2]) IN
           /\ e # -1 /\ r \in BuiltIn => DecodeR(r, RemoteAddr(r), e) = Table(r)[j][2]
           /\ r \in BuiltIn \ {"Apple2009"} => e = Table(r)[j][1]
===============================================================================
