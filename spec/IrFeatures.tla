------------------------------ MODULE IrFeatures ------------------------------
(***************************************************************************)
(* The feature lattice of the crate and what each combination offers.      *)
(* "embedded" stands for "embedded-hal" and "fugit" together (and adds the *)
(* fugit constructors); "defmt" and "log" exclude one another.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ProtoFeatures == {"nec", "rc5", "rc6", "sbp", "denon"}
Features == ProtoFeatures \cup {"remotes", "embedded", "embedded-hal", "fugit", "defmt", "log"}

Closure(F) == IF "embedded" \in F THEN F \cup {"embedded-hal", "fugit"} ELSE F
Legal(F) == ~({"defmt", "log"} \subseteq F)

(* Parts of the interface and the features that name them.                 *)
Parts ==
  [base        |-> {},
   nec         |-> {"nec"}, rc5 |-> {"rc5"}, rc6 |-> {"rc6"}, sbp |-> {"sbp"}, denon |-> {"denon"},
   remotes     |-> {"remotes"},
   remotes_nec |-> {"remotes", "nec"}, remotes_rc5 |-> {"remotes", "rc5"}, remotes_sbp |-> {"remotes", "sbp"},
   hal         |-> {"embedded-hal"},
   hal_nec     |-> {"embedded-hal", "nec"}, hal_rc5 |-> {"embedded-hal", "rc5"}, hal_rc6 |-> {"embedded-hal", "rc6"},
   fugit       |-> {"fugit"},
   hal_fugit   |-> {"embedded-hal", "fugit"},
   embedded    |-> {"embedded"},
   log         |-> {"log"},
   defmt       |-> {"defmt"},
   defmt_nec   |-> {"defmt", "nec"}, defmt_rc5 |-> {"defmt", "rc5"}, defmt_rc6 |-> {"defmt", "rc6"},
   defmt_sbp   |-> {"defmt", "sbp"}, defmt_denon |-> {"defmt", "denon"}, defmt_remotes |-> {"defmt", "remotes"}]
Offers(F) == {x \in DOMAIN Parts : Parts[x] \subseteq Closure(F)}

(* One feature set of each interface.                                      *)
Canonical(F) == "embedded" \in F => {"embedded-hal", "fugit"} \cap F = {}
===============================================================================
