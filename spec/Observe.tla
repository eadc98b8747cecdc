------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* Observables of a vector, accumulated while the enumeration machine      *)
(* walks over the states: acc[s + 1] = <<weight with a hole on s, with a   *)
(* spin down, with a spin up>>, den the squared norm.  Recorded densities  *)
(* are multiplied by the squared norm, so that they are integers.          *)
(*   dens  : <<spins reversed?, hole, down, up>>, one number per site each *)
(*   maps  : <<spin, rows>>, the rectangular map, north row first          *)
(*   flipv : images of the vector under the reversal of spins              *)
(*   flipb : the basis with spins reversed, state by state                 *)
(*   syms  : the symbols drawn for each state of the basis                 *)
(***************************************************************************)
EXTENDS Determinants, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, occ, acc, den
vars == <<k, occ, acc, den>>
S == Scn[k]
Has(f) == f \in DOMAIN S
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, Rank(occ), clause, ToDet(occ), x>>))

Weight(kk, o) == LET i == Rank(o) + 1 IN Scn[kk].v[i] * Scn[kk].v[i] + Scn[kk].im[i] * Scn[kk].im[i]
Add(a, o, w) == TLCEval([i \in 1 .. Len(o) |-> [a[i] EXCEPT ![IF o[i] = Hole THEN 1 ELSE IF o[i] = Down THEN 2 ELSE 3] = @ + w]])

Init == /\ k \in 1 .. N
        /\ occ = FirstOcc(Scn[k].n, Scn[k].nh, Scn[k].nb)
        /\ acc = Add([i \in 1 .. Scn[k].n |-> <<0, 0, 0>>], occ, Weight(k, occ))
        /\ den = Weight(k, occ)
Next == /\ HasSuccessor(occ) /\ occ' = Successor(occ) /\ k' = k
        /\ acc' = Add(acc, occ', Weight(k, occ')) /\ den' = den + Weight(k, occ')
Spec == Init /\ [][Next]_vars

(* Properties of the specified densities themselves.                       *)
Column(a, c) == [i \in 1 .. Len(a) |-> a[i][c]]
Total(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
SpecSound ==
  /\ \A i \in 1 .. Len(acc) : acc[i][1] + acc[i][2] + acc[i][3] = den
  /\ Total(Column(acc, 1)) = Scn[k].nh * den
  /\ Total(Column(acc, 2)) = Scn[k].nb * den

Species(spin) == IF spin = 0 THEN 1 ELSE IF spin = -1 THEN 2 ELSE 3
JudgeDens(d) ==
  /\ d[2] = Column(acc, 1) \/ Say("density of holes", <<d, den>>)
  /\ d[3] = Column(acc, IF d[1] THEN 3 ELSE 2) \/ Say("density of spins down", <<d, acc, den>>)
  /\ d[4] = Column(acc, IF d[1] THEN 2 ELSE 3) \/ Say("density of spins up", <<d, acc, den>>)
JudgeMap(m) ==
  \/ /\ Len(m[2]) = S.h
     /\ \A y \in 1 .. S.h : /\ Len(m[2][y]) = S.w
                            /\ \A x \in 1 .. S.w : m[2][y][x] = acc[(S.h - y) * S.w + x][Species(m[1])]
  \/ Say("rectangular map", <<m, acc, den>>)

Symbol(v) == IF v = Hole THEN "0" ELSE IF v = Down THEN "-" ELSE "+"
Judge ==
  IF S.err # "" THEN HasSuccessor(occ) \/ Say("raised", S.err)
  ELSE
  /\ (Has("dens") /\ ~HasSuccessor(occ)) => \A j \in 1 .. Len(S.dens) : JudgeDens(S.dens[j])
  /\ (Has("maps") /\ ~HasSuccessor(occ)) => \A j \in 1 .. Len(S.maps) : JudgeMap(S.maps[j])
  /\ Has("flipv") => S.flipv[Rank(FlipAll(occ)) + 1] = S.v[Rank(occ) + 1]
                     \/ Say("reversed vector", S.flipv[Rank(FlipAll(occ)) + 1])
  /\ Has("flipb") => S.flipb[Rank(occ) + 1] = ToDet(FlipAll(occ)) \/ Say("reversed basis", S.flipb[Rank(occ) + 1])
  /\ Has("syms") => S.syms[Rank(occ) + 1] = [i \in 1 .. Len(occ) |-> Symbol(occ[i])] \/ Say("symbols", S.syms[Rank(occ) + 1])
=============================================================================
