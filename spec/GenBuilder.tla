------------------------------ MODULE GenBuilder ------------------------------
(***************************************************************************)
(* Lists of builder calls that make a receiver, with their meaning: every  *)
(* order of one call of each kind (and of every subset of the kinds), and  *)
(* random longer lists in which kinds occur again.                         *)
(***************************************************************************)
EXTENDS IrBuilder, TLC, Json, SequencesExt

CONSTANTS ROUNDS, RANDOM, LONG
VARIABLES done

Protos == {"nec", "nec16", "samsung", "apple", "raw", "sbp", "denon", "rc5", "rc6"}
Freqs == {"10000", "20000", "38000", "44100", "1000000", "3579545", "48000000", "168000000", "1000000000", "0", "1"}
Pins == {"A", "B"}
Monos == {"u32", "u64", "f32", "f64"}
Values(kind) == CASE kind = "proto" -> Protos [] kind = "freq" -> Freqs [] kind = "pin" -> Pins
                  [] kind = "mono" -> Monos [] kind = "remote" -> Remotes
Kinds == {"proto", "freq", "pin", "mono", "remote"}

Emit(calls) == \/ ~Buildable(Means(calls))
               \/ PrintT("CASE " \o ToJson([calls |-> calls, s |-> Means(calls)]))

(* Orders of a set of kinds                                                *)
Orders(K) == {q \in [1..Cardinality(K) -> K] : \A i, j \in 1..Cardinality(K) : i # j => q[i] # q[j]}
(* values for one call of each kind, the remote fitting the protocol       *)
Fill(q, seed) ==
  LET r == RandomElement(Remotes)
      p == RandomElement(Protos)
      with == \E k \in 1..Len(q) : q[k] = "remote"
  IN TLCEval([k \in 1..Len(q) |-> <<q[k], CASE q[k] = "remote" -> r
                                            [] q[k] = "proto" -> IF with THEN RemoteFor(r) ELSE p
                                            [] OTHER -> RandomElement(Values(q[k]))>>])
RandomCalls(n) ==
  TLCEval([k \in 1..n |-> LET kind == RandomElement({"proto", "freq", "pin", "mono", "remote"})
                  IN <<kind, RandomElement(Values(kind))>>])
(* ends in a protocol, sometimes in a fitting remote                       *)
Closed(calls, seed) ==
  LET s == Means(calls)
      p == RandomElement(Protos)
      fit == {r \in Remotes : RemoteFor(r) = s.proto}
  IN TLCEval(IF Buildable(s) THEN calls
             ELSE IF fit # {} THEN Append(calls, <<"remote", CHOOSE r \in fit : TRUE>>)
             ELSE Append(calls, <<"proto", p>>))

Init == done = FALSE
Next ==
  /\ ~done /\ done' = TRUE
  /\ \A p \in Protos : Emit(<<<<"proto", p>>>>)
  /\ \A r \in Remotes : Emit(<<<<"proto", RemoteFor(r)>>, <<"remote", r>>>>)
  /\ \A x \in 1..ROUNDS : \A K \in SUBSET Kinds : \A q \in Orders(K) : \E c \in {Fill(q, x)} : Emit(c)
  /\ \A x \in 1..RANDOM : \E n \in {RandomElement(4..LONG)} : \E c0 \in {RandomCalls(n)} : \E c \in {Closed(c0, x)} : Emit(c)
Spec == Init /\ [][Next]_done
===============================================================================
