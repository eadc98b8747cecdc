----------------------------- MODULE CrashTrace -----------------------------
(***************************************************************************)
(* Recorded saves with faults, each followed by a load in a new process.   *)
(* A step is [v, fault, at, outcome, got, other]: got is the version the   *)
(* load gave back ("error", or "mixture" when it is none of the versions), *)
(* other is the version of another file, that must stay "C".               *)
(***************************************************************************)
EXTENDS CrashOps, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)
VARIABLES k, step, may
vars == <<k, step, may>>
S == Scn[k]
Brief(a) == <<a.v, a.fault, a.at, a.outcome, a.got, a.why>>
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, step, clause, S.saver, [i \in 1 .. step |-> Brief(S.steps[i])], x>>))

Init == k \in 1 .. N /\ step = 0 /\ may = {"none"}
After(a) == MayHold(may, a.v, a.fault, a.outcome)
Next == /\ step < Len(S.steps) /\ step' = step + 1 /\ k' = k
        /\ LET a == S.steps[step + 1] IN may' = AfterLoad(After(a), a.got)
Spec == Init /\ [][Next]_vars

Judge == step < Len(S.steps) =>
  LET a == S.steps[step + 1] m == After(a) IN
  /\ a.outcome \in Outcomes(a.fault) \/ Say("outcome", Brief(a))
  /\ (IF a.got = "error" THEN MayFail(m) ELSE a.got \in Versions(m)) \/ Say("loaded", <<Brief(a), m>>)
  /\ a.other = "C" \/ Say("another computation changed", Brief(a))
=============================================================================
