----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Replayed histories of computations in memory and on disk.  After every  *)
(* action the harness records each slot as a record of strings, one per    *)
(* part of a computation (numbers written exactly), and what the           *)
(* computation gives when used (rebuilt basis and Hamiltonian, densities,  *)
(* neighborhoods, drawing).  step counts the actions already taken.        *)
(***************************************************************************)
EXTENDS StoreOps, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, step, mem, files
vars == <<k, step, mem, files>>
S == Scn[k]
Brief(a) == [op |-> a.op, slot |-> a.slot, saver |-> a.saver, from |-> a.from]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, step, clause, [i \in 1 .. step |-> Brief(S.steps[i])], x>>))

Slots(a) == {s \in 1 .. Len(a.mem) : a.mem[s] # <<>>}
Seen(a)  == [s \in Slots(a) |-> a.mem[s][1]]            \* slots as recorded (a slot is a sequence of at most one record)
FileOf(m, a) == <<a.saver, m[IF a.op = "load" THEN a.from ELSE a.slot].key>>

(* What the action must give; "compute" and "edit" are the caller's.       *)
MemAfter(m, f, a) ==
  CASE a.op \in {"compute", "edit"} -> Put(m, a.slot, Seen(a)[a.slot])
    [] a.op = "load" -> Put(m, a.slot, f[FileOf(m, a)])
    [] a.op = "save" -> IF a.saver = "main" THEN [m EXCEPT ![a.slot].guess = "none"] ELSE m
FilesAfter(m, f, a) == IF a.op = "save" THEN Put(f, FileOf(m, a), Stored(m[a.slot], a.saver)) ELSE f

Init == k \in 1 .. N /\ step = 0 /\ mem = <<>> /\ files = <<>>
Next == /\ step < Len(S.steps) /\ step' = step + 1 /\ k' = k
        /\ S.steps[step + 1].err = ""
        /\ mem'   = MemAfter(mem, files, S.steps[step + 1])
        /\ files' = FilesAfter(mem, files, S.steps[step + 1])
Spec == Init /\ [][Next]_vars

SameRecord(got, exp, s, loose) ==
  \A x \in DOMAIN exp : got[x] = exp[x] \/ (x = "guess" /\ loose) \/ Say("slot changed or read back differently", <<s, x, got[x], exp[x]>>)

Judge ==
  /\ (step > 0) =>
       LET a == S.steps[step] IN
       /\ Slots(a) = DOMAIN mem \/ Say("slots", Slots(a))
       \* a saver may or may not drop the starting guess of what it was given
       /\ \A s \in Slots(a) \cap DOMAIN mem : SameRecord(Seen(a)[s], mem[s], s, a.op = "save" /\ s = a.slot)
       /\ a.nfiles = Cardinality(DOMAIN files) \/ Say("number of files", a.nfiles)
  /\ (step < Len(S.steps)) => S.steps[step + 1].err = "" \/ Say("raised", <<Brief(S.steps[step + 1]), S.steps[step + 1].err>>)
=============================================================================
