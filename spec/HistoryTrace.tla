---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Replayed sessions judged call by call.  Each step records what the call *)
(* answered (got: a sequence of whole numbers for what is exact, one in    *)
(* units of 1/10000 for what is not), the objects whose contents differ    *)
(* after the call (changed), and the error it ended with.  Alone[t] is     *)
(* what a session that makes only the calls of the term t answers last.    *)
(***************************************************************************)
EXTENDS HistoryOps, Json, IOUtils

Doc   == JsonDeserialize(IOEnv.SCN)
Scn   == Doc
Alone == JsonDeserialize(IOEnv.ALONE)
N     == Len(Scn)

VARIABLES k, step, obj
vars == <<k, step, obj>>
S == Scn[k]
A(i) == [op |-> S.steps[i].op, k |-> S.steps[i].k, a |-> S.steps[i].a]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, step + 1, clause, A(step + 1), x>>))

Init == k \in 1 .. N /\ step = 0 /\ obj = <<>>
Next == step < Len(S.steps) /\ step' = step + 1 /\ k' = k /\ obj' = After(obj, A(step + 1))
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
Same(x, y) == /\ x.err = y.err
              /\ x.exact = y.exact
              /\ Len(x.near) = Len(y.near) /\ \A i \in 1 .. Len(x.near) : Abs(x.near[i] - y.near[i]) <= 2

Judge == step < Len(S.steps) =>
  LET e == S.steps[step + 1]  s == A(step + 1) IN
  /\ Fits(obj, s) \/ Say("not a call of the machine", obj)
  /\ LET touched == {e.changed[i] : i \in 1 .. Len(e.changed)} \ (IF s.op = "spoil" THEN Shared(obj, s.a[1]) ELSE {}) IN
       touched = {} \/ Say("changed what it was given, or an earlier result", {obj[x].term : x \in touched})
  /\ s.op = "spoil" \/ LET t == TermOf(obj, s) IN
       LET x == Alone[S.world \o "/" \o t] IN Same(e.got, x) \/ Say("the same call answers otherwise in a fresh session", <<t, e.got, x>>)
=============================================================================
