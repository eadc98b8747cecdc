------------------------------ MODULE TJGraph ------------------------------
(***************************************************************************)
(* Judges whole Hamiltonians recorded from the implementation.             *)
(*                                                                         *)
(* Each scenario is a lattice, a particle content, a set of allowed sites  *)
(* and a list of items (selection of terms, couplings, recorded rows).     *)
(* TLC walks the whole state space of the scenario (every occupation word  *)
(* reachable by exchanging unlike contents along a bond, that is every     *)
(* state) and compares, in each state, the row of the specification with   *)
(* the recorded row that bears the number of the state.                    *)
(***************************************************************************)
EXTENDS TJ, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)
Lats == [k \in 1 .. N |-> Lattice(Scn[k].kind, Scn[k].w, Scn[k].h)]
AllowedOf(k, r) == IF r = <<>> THEN 0 .. Lats[k].n - 1 ELSE {r[i] : i \in 1 .. Len(r)}
TwoEnded(k) == "r2" \in DOMAIN Scn[k]
Sites(r) == {r[i] : i \in 1 .. Len(r)}
Allowed == [k \in 1 .. N |-> IF TwoEnded(k) THEN Sites(Scn[k].r) ELSE AllowedOf(k, Scn[k].r)]
Target == [k \in 1 .. N |-> IF TwoEnded(k) THEN Sites(Scn[k].r2) ELSE Allowed[k]]
SelOf(it) == {it.sel[i] : i \in 1 .. Len(it.sel)}

VARIABLES k, occ
vars == <<k, occ>>

Init == k \in 1 .. N /\ occ = FirstOcc(Lats[k].n, Scn[k].nh, Scn[k].nb)

Next == /\ k' = k
        /\ \E b \in Lats[k].bonds : /\ occ[b[1] + 1] # occ[b[2] + 1]
                                    /\ occ' = Swap(occ, b[1], b[2])
Spec == Init /\ [][Next]_vars

(* Verdicts.                                                               *)
Say(i, clause, x) == PrintT("FAIL" \o ToString(<<Scn[k].id, i, clause, ToDet(occ), x>>))

Recorded(row) == {row[i] : i \in 1 .. Len(row)}

(* What the caller handed over (configuration, basis, couplings, selection,*)
(* list of sites), written down before and after the construction.         *)
Intact(it) == "seen" \notin DOMAIN it \/ (Len(it.seen) = 2 /\ it.seen[1] = it.seen[2])

JudgeItem(i, it, rk) ==
  IF it.err # "" THEN rk # 0 \/ Say(i, "raised", it.err)
  ELSE IF Len(it.rows) # Dim(Lats[k].n, Scn[k].nh, Scn[k].nb)
  THEN rk # 0 \/ Say(i, "dimension", Len(it.rows))
  ELSE IF rk = 0 /\ ~Intact(it)
  THEN Say(i, "what the caller handed over was changed", it.seen)
  ELSE LET want == RankedRow([lat |-> Lats[k], r |-> Allowed[k], r2 |-> Target[k], prm |-> it.prm], occ, SelOf(it))
           got  == Recorded(it.rows[rk + 1])
       IN  \/ want = got
           \/ Say(i, "row", [missing |-> want \ got, extra |-> got \ want])

Judge == LET rk == Rank(occ)
         IN  \A i \in 1 .. Len(Scn[k].items) : JudgeItem(i, Scn[k].items[i], rk)

(* Every state the specification couples belongs to the same content, and  *)
(* the coupling is symmetric: properties of the specification itself.      *)
(* Of a restriction given by its two ends, hops are undone by those of the *)
(* exchanged ends.                                                         *)
SpecSound ==
  \A i \in 1 .. Len(Scn[k].items) :
    LET it == Scn[k].items[i]
        m  == [lat |-> Lats[k], r |-> Allowed[k], r2 |-> Target[k], prm |-> it.prm]
    IN  i > Scn[k].selfcheck
        \/ \A p \in Row(m, occ, SelOf(it)) :
             /\ CountOf(p[1], Hole) = Scn[k].nh /\ CountOf(p[1], Down) = Scn[k].nb
             /\ \/ TwoEnded(k) /\ "SD" \in SelOf(it)
                \/ <<occ, p[2]>> \in Row([m EXCEPT !.r = m.r2, !.r2 = m.r], p[1], SelOf(it))
             /\ \A s \in (0 .. Lats[k].n - 1) \ (Allowed[k] \cup Target[k]) : p[1][s + 1] = occ[s + 1]
=============================================================================
