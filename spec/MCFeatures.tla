------------------------------ MODULE MCFeatures ------------------------------
(***************************************************************************)
(* Walks the lattice by adding one feature at a time, and prints the       *)
(* combinations to build.  All = FALSE keeps those of at most Small        *)
(* features, those that lack at most Small of a maximal one, and a random  *)
(* share of the others.                                                    *)
(***************************************************************************)
EXTENDS IrFeatures, TLC, Json, SequencesExt
CONSTANTS All, Small, Share
VARIABLES f

Init == f = {}
Next == \E x \in Features \ f : f' = f \cup {x} /\ Legal(f')
Spec == Init /\ [][Next]_f

(* More features never take anything away.                                 *)
Monotone == [][Offers(f) \subseteq Offers(f')]_f
SameInterface == \A g \in {(f \ {"embedded-hal", "fugit"})} : "embedded" \in f => Offers(g) = Offers(f) /\ Closure(g) = Closure(f)
ProtocolsOffered == \A p \in ProtoFeatures : p \in f <=> p \in Offers(f)

Chosen == \/ All \/ Cardinality(f) <= Small
          \/ Cardinality(Features \ Closure(f)) <= Small + 1
          \/ RandomElement(1..1000) <= Share
Emit == (Canonical(f) /\ Chosen) => PrintT("CASE " \o ToJson([f |-> SetToSeq(f), parts |-> SetToSeq(Offers(f))]))
===============================================================================
