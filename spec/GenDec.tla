-------------------------------- MODULE GenDec --------------------------------
(***************************************************************************)
(* Behaviours of IrLink given to a decoder whose user resets it now and    *)
(* then, early, late or not at all.  Ops: <<1/0, dt, state, command>> for  *)
(* an event, <<2, 0, state, command>> for a reset.                         *)
(***************************************************************************)
EXTENDS GenLink, IrContract

VARIABLES d, ops, k

dvars == <<vars, d, ops, k>>

Obs(op, dt, x) == <<op, dt, StateNo(x), Ask(p, x)>>

Do(op, dt, x) == d' = x /\ ops' = Append(ops, Obs(op, dt, x))

WantReset(x) == IF DecState(x) \in {"Idle", "Receiving"} THEN RandomElement(1..60) = 1
                ELSE RandomElement(1..4) > 1

Play ==
  /\ q = <<>> /\ nops = MAXOPS /\ k < Len(hist)
  /\ \E r \in {WantReset(d)} :
       IF r /\ (ops = <<>> \/ ops[Len(ops)][1] # 2)
       THEN Do(2, 0, DecReset(p, d)) /\ k' = k
       ELSE \E e \in {hist[k + 1]} :
              /\ \E x \in {DecStep(p, w, d, e[1] = 1, e[2])} : Do(e[1], e[2], x)
              /\ k' = k + 1
  /\ UNCHANGED vars

FinishD ==
  /\ q = <<>> /\ nops = MAXOPS /\ k = Len(hist)
  /\ PrintT("CASE " \o ToJson([p |-> p, f |-> f, ev |-> ops]))
  /\ nops' = MAXOPS + 1
  /\ UNCHANGED <<p, f, w, dec, res, q, m, fbits, ftog, clean, bad, how, done, last, open, xerr, hist, d, ops, k>>

DInit == Init /\ d = DecInit(p) /\ ops = <<>> /\ k = 0
DSpec == DInit /\ [][(Next /\ UNCHANGED <<d, ops, k>>) \/ Play \/ FinishD]_dvars
===============================================================================
