------------------------------- MODULE TraceData ------------------------------
(***************************************************************************)
(* Recorded from the real code, one observation per line.                  *)
(* Mode "span":   [us, tol, f, obs (<<length, class>>), over].             *)
(* Mode "cmd":    [p, b (bits), g, v (fields), ok, any].                   *)
(* Mode "create": [p, a, c, got (address and command, or empty)].          *)
(* Mode "remote": [r, v (fields of the command), act, enc (-2: not asked)] *)
(***************************************************************************)
EXTENDS IrRemotes, IrSpans, Json

CONSTANTS Mode, File
VARIABLES i, ok

Runs == TLCEval(ndJsonDeserialize(File))
Least(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j

JudgeSpan(r) ==
  /\ \A k \in 1..Len(r.obs) :
       r.obs[k][2] = Least({j \in 1..Len(r.us) : Accepts(r.us[j], r.tol[j], r.f, r.obs[k][1])})
  /\ (r.over = 1) = OverlapOf(SpansOf(r.us, r.tol, r.f))
JudgeCmd(r) ==
  /\ r.v = Fields(r.p, r.b, r.g, r.g)
  /\ (r.ok = 1) = FrameValid(r.p, r.b)
  /\ r.any # <<>> => r.any = AnyOf(r.p, r.v)
JudgeCreate(r) == r.got = IF CanCreate(r.p, r.a, r.c) THEN <<r.a, r.c>> ELSE <<>>
JudgeRemote(r) ==
  /\ r.act = ButtonR(r.r, r.v)
  /\ r.enc # -2 => r.enc = EncodeR(r.r, r.act)

Judge(r) == CASE Mode = "span"   -> JudgeSpan(r)
              [] Mode = "cmd"    -> JudgeCmd(r)
              [] Mode = "create" -> JudgeCreate(r)
              [] Mode = "remote" -> JudgeRemote(r)

Init == i \in 1..Len(Runs) /\ ok = Judge(Runs[i])
Next == FALSE /\ UNCHANGED <<i, ok>>
Spec == Init /\ [][Next]_<<i, ok>>
Accepted == ok
===============================================================================
