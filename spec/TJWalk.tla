------------------------------- MODULE TJWalk -------------------------------
(***************************************************************************)
(* Validates recorded walks.                                               *)
(*                                                                         *)
(* A trace is a walk of the implementation through the state space of a    *)
(* lattice (possibly far too large to enumerate): in each state it records *)
(* what the code says about that state (images under each term, energies,  *)
(* coupled states) and then moves to one of the images the code returned.  *)
(* Every observation must be the one of the specification, and every step  *)
(* must be a transition of the specification.                              *)
(***************************************************************************)
EXTENDS TJ, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)
Lats == [k \in 1 .. N |-> Lattice(Scn[k].kind, Scn[k].w, Scn[k].h)]
AllowedOf(k, r) == IF r = <<>> THEN 0 .. Lats[k].n - 1 ELSE {r[j] : j \in 1 .. Len(r)}
TwoEnded(k) == "r2" \in DOMAIN Scn[k]
Sites(r) == {r[i] : i \in 1 .. Len(r)}
Ctx == [k \in 1 .. N |-> [lat |-> Lats[k],
                          r |-> IF TwoEnded(k) THEN Sites(Scn[k].r) ELSE AllowedOf(k, Scn[k].r),
                          r2 |-> IF TwoEnded(k) THEN Sites(Scn[k].r2) ELSE AllowedOf(k, Scn[k].r), prm |-> Scn[k].prm]]

VARIABLES k, i
vars == <<k, i>>

Init == k \in 1 .. N /\ i = 0
Next == i < Len(Scn[k].steps) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_vars

St   == Scn[k].steps[i]
Word == St.occ
M    == Ctx[k]

Say(clause, x) == PrintT("FAIL" \o ToString(<<Scn[k].id, i, clause, ToDet(Word), x>>))

(* A recorded list against an expected set: same members, none repeated.   *)
SameList(clause, rec, want) ==
  \/ rec.err = "" /\ Len(rec.val) = Cardinality(want) /\ {rec.val[j] : j \in 1 .. Len(rec.val)} = want
  \/ Say(clause, IF rec.err # "" THEN rec.err
                 ELSE ToString([missing |-> want \ {rec.val[j] : j \in 1 .. Len(rec.val)},
                                extra |-> {rec.val[j] : j \in 1 .. Len(rec.val)} \ want,
                                length |-> Len(rec.val)]))
SameValue(clause, rec, want) ==
  \/ rec.err = "" /\ rec.val = want
  \/ Say(clause, IF rec.err # "" THEN rec.err ELSE ToString([got |-> rec.val, want |-> want]))

Has(f) == f \in DOMAIN St.obs
SwapDets(moves) == {ToDet(Swap(Word, mv[1], mv[2])) : mv \in moves}
SingletDets(moves) == {<<ToDet(ShiftKeep(Word, mv)), ToDet(ShiftSwap(Word, mv))>> : mv \in moves}

DynWant(sel) == {<<ToDet(p[1]), p[2]>> : p \in Row(M, Word, sel \ {"z", "V"})}    \* the diagonal terms couple no state to another

Judge ==
  i = 0 \/
  /\ Has("hop")      => SameList("hop", St.obs.hop, SwapDets(HopMoves(M, Word)))
  /\ Has("straight") => SameList("aligned next hop", St.obs.straight, SwapDets(StraightMoves(M, Word)))
  /\ Has("bent")     => SameList("bent next hop", St.obs.bent, SwapDets(BentMoves(M, Word)))
  /\ Has("fpar")     => SameList("exchange, parallel hole", St.obs.fpar, SwapDets(FlipMoves(M, Word, "Jpar")))
  /\ Has("fper")     => SameList("exchange, perpendicular hole", St.obs.fper, SwapDets(FlipMoves(M, Word, "Jper")))
  /\ Has("fund")     => SameList("exchange, no hole", St.obs.fund, SwapDets(FlipMoves(M, Word, "J")))
  /\ Has("spar")     => SameList("singlet, parallel", St.obs.spar,
                                 SingletDets({mv \in SingletMoves(M, Word) : SingletPar(M, mv)}))
  /\ Has("sper")     => SameList("singlet, perpendicular", St.obs.sper,
                                 SingletDets({mv \in SingletMoves(M, Word) : ~SingletPar(M, mv)}))
  /\ Has("static")    => SameValue("magnetic energy", St.obs.static, StaticEnergy(M, Word))
  /\ Has("repulsion") => SameValue("repulsion", St.obs.repulsion, RepulsionEnergy(M, Word))
  /\ Has("energy")    => SameValue("state energy", St.obs.energy, StateEnergy(M, Word))
  /\ Has("intact")    => SameValue("state handed in is left as it was", St.obs.intact, ToDet(Word))
  /\ Has("dyn") => \A d \in 1 .. Len(St.obs.dyn) :
       SameList("couplings " \o ToString(St.obs.dyn[d].sel), St.obs.dyn[d],
                DynWant({St.obs.dyn[d].sel[j] : j \in 1 .. Len(St.obs.dyn[d].sel)}))
  /\ \/ i = 1 \/ Scn[k].steps[i - 1].occ = Word
     \/ Word \in Successors(M, Scn[k].steps[i - 1].occ)
     \/ Say("step is not a transition", Scn[k].steps[i - 1].occ)
=============================================================================
