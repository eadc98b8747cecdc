--------------------------- MODULE WorkflowTrace ---------------------------
(***************************************************************************)
(* Replayed histories judged step by step.  Each step records what the     *)
(* stage returned (got), which saved computations it opened for reading    *)
(* (opened) and, after the step, every saved computation (snap):           *)
(*   [dir, shape, nh, nb, sel, prm, r, ham, eig]                           *)
(* ham and eig are fingerprints of the Hamiltonian and of the eigenstates. *)
(* disk is the set of these records according to the machine.              *)
(***************************************************************************)
EXTENDS WorkflowOps, FiniteSetsExt, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, step, disk
vars == <<k, step, disk>>
S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, step, clause, [i \in 1 .. step |-> [op |-> S.steps[i].op, nh |-> S.steps[i].nh,
                    nb |-> S.steps[i].nb, sel |-> S.steps[i].sel, var |-> S.steps[i].var]], x>>))

KeyOf(r) == <<r.dir, r.shape, r.nh, r.nb, r.sel>>
Local(x, a) == <<x[1], a.shape, x[2], x[3], a.terms>>      \* a key of WorkflowOps, with the lattice and terms of the step
ReadKeys(a)  == {Local(x, a) : x \in Reads(a.n, a)}
WriteKeys(a) == {Local(x, a) : x \in Writes(a.n, a)}
Find(d, key) == CHOOSE r \in d : KeyOf(r) = key
Held(d) == {KeyOf(r) : r \in d}
SnapSet(a) == {a.snap[i] : i \in 1 .. Len(a.snap)}

Init == k \in 1 .. N /\ step = 0 /\ disk = {}
Next == step < Len(S.steps) /\ step' = step + 1 /\ k' = k /\ disk' = SnapSet(S.steps[step + 1])
Spec == Init /\ [][Next]_vars

(* The judgement of step i + 1 needs the machine before it.                *)
JudgeStep(a, d) ==
  LET served == ReadKeys(a) \subseteq Held(d)
      new    == SnapSet(a)
      wk     == IF served THEN WriteKeys(a) ELSE {}
      source == Find(d, CHOOSE x \in ReadKeys(a) : TRUE)
  IN
  /\ Len(a.snap) = Cardinality(Held(new)) \/ Say("two files for one computation", a.snap)
  /\ (\A r \in d : KeyOf(r) \in wk \/ r \in new) \/ Say("a saved computation was lost or changed", {r \in d : KeyOf(r) \notin wk /\ r \notin new})
  /\ (\A r \in new : KeyOf(r) \in wk \/ r \in d) \/ Say("an unasked computation was saved", {r \in new : KeyOf(r) \notin wk /\ r \notin d})
  /\ (wk \subseteq Held(new)) \/ Say("a computation was not saved", <<a.err, wk \ Held(new)>>)
  /\ \A x \in wk \cap Held(new) :
       LET r == Find(new, x) IN
       /\ (r.prm = a.prm /\ r.r = a.r) \/ Say("saved with other coefficients or allowed sites", <<r, a.prm, a.r>>)
       /\ a.op \in {"neel", "blocks"} => r.ham = source.ham \/ Say("not made from the latest saved computation", <<r.ham, source.ham>>)
  /\ (\A x \in wk : Cardinality({i \in 1 .. Len(a.wrote) : a.wrote[i] = x}) <= 1) \/ Say("saved more than once", a.wrote)
  /\ IF served THEN a.err = "" \/ Say("failed although the computation it reads is saved", a.err)
               ELSE a.err # "" \/ Say("went on without the computation it reads", a.got)
  /\ (served /\ a.err = "" /\ a.op \in {"load", "loadp", "loadb"}) =>
       (Len(a.got) = 1 /\ a.got[1] = source) \/ Say("loaded something else", <<a.got, source>>)
  /\ (served /\ a.err = "" /\ a.op \in {"neel", "blocks"}) =>
       (Len(a.got) = 1 /\ a.got[1].ham = source.ham) \/ Say("returned a result made from something else", <<a.got, source>>)
  /\ (served /\ a.err = "" /\ a.op \in {"plot", "plots"}) =>
       {a.opened[i] : i \in 1 .. Len(a.opened)} = ReadKeys(a) \/ Say("read something else", <<a.opened, ReadKeys(a)>>)

Judge == step < Len(S.steps) => JudgeStep(S.steps[step + 1], disk)
=============================================================================
