--------------------------------- MODULE TJ ---------------------------------
(***************************************************************************)
(* The extended t-J model as a transition system on occupation words.      *)
(*                                                                         *)
(* Every off-diagonal term of the Hamiltonian is a set of guarded moves    *)
(* from a state to a state, each with an amplitude; every diagonal term is *)
(* a sum of energies of local patterns.  A row of the Hamiltonian is the   *)
(* sum of the amplitudes of the moves by target.                           *)
(*                                                                         *)
(* Couplings are integers; amplitudes are in quarters of the unit, so that *)
(* J/2, J/4 and their products with spins 1/2 stay integers.               *)
(*                                                                         *)
(* A context m is a record                                                 *)
(*   lat : a lattice of Geometry                                           *)
(*   r   : the set of sites on which interactions are allowed              *)
(*   r2  : the set of sites that a moving hole may come to; the same as r, *)
(*         except for restrictions given by their two ends, from the sites *)
(*         of r to those of r2 (of hole moves only)                        *)
(*   prm : the couplings t, J, Jpar, Jper, hpar, hper, tbent, tstraight,   *)
(*         VNN, VNNNper                                                    *)
(***************************************************************************)
EXTENDS Geometry, Determinants

TermNames == {"t", "z", "ij", "SD", "tN", "V"}

IsHole(occ, s)     == occ[s + 1] = Hole
IsElectron(occ, s) == occ[s + 1] # Hole
Opposite(occ, a, b) == occ[a + 1] * occ[b + 1] = -1

Holes(m, occ)     == {s \in m.r : IsHole(occ, s)}
Electrons(m, occ) == {s \in m.r : IsElectron(occ, s)}

(***************************************************************************)
(* Hopping.                                                                *)
(***************************************************************************)
HopMoves(m, occ) ==
  UNION {{<<h, e>> : e \in {x \in Nbr(m.lat, h) \cap m.r2 : IsElectron(occ, x)}} : h \in Holes(m, occ)}

StraightMoves(m, occ) ==
  UNION {{<<h, e>> : e \in {x \in Straight(m.lat, h) \cap m.r2 : IsElectron(occ, x)}} : h \in Holes(m, occ)}
BentMoves(m, occ) ==
  UNION {{<<h, e>> : e \in {x \in Diag(m.lat, h) \cap m.r2 : IsElectron(occ, x)}} : h \in Holes(m, occ)}

(***************************************************************************)
(* Magnetic exchange.  Only holes on allowed sites dress the coupling.     *)
(***************************************************************************)
ActiveBonds(m, occ) ==
  {b \in m.lat.bonds : b[1] \in m.r /\ b[2] \in m.r
                       /\ IsElectron(occ, b[1]) /\ IsElectron(occ, b[2])}

HolesBy(m, occ, b) == {h \in (Nbr(m.lat, b[1]) \cup Nbr(m.lat, b[2])) \cap m.r : IsHole(occ, h)}

Dressing(m, occ, b) ==
  LET hs == HolesBy(m, occ, b)
  IN  IF hs = {} THEN "J"
      ELSE IF \E h \in hs : Aligned3(m.lat, b[1], b[2], h) THEN "Jpar"
      ELSE "Jper"

AntiBonds(m, occ) == {b \in ActiveBonds(m, occ) : Opposite(occ, b[1], b[2])}
FlipMoves(m, occ, dressing) == {b \in AntiBonds(m, occ) : Dressing(m, occ, b) = dressing}

(***************************************************************************)
(* Singlet displacement: a hole h and two linked electrons e, f of         *)
(* opposite spins.                                                         *)
(***************************************************************************)
SingletMoves(m, occ) ==
  UNION {UNION {{<<h, e, f>> : f \in {x \in Nbr(m.lat, e) \cap m.r2 :
                                        IsElectron(occ, x) /\ Opposite(occ, e, x)}} :
                e \in {x \in Nbr(m.lat, h) \cap m.r2 : IsElectron(occ, x)}} :
         h \in Holes(m, occ)}
SingletPar(m, mv) == Aligned3(m.lat, mv[1], mv[2], mv[3])
(* the pair shifts as it is *)
ShiftKeep(occ, mv) ==
  [occ EXCEPT ![mv[1] + 1] = occ[mv[2] + 1], ![mv[2] + 1] = occ[mv[3] + 1], ![mv[3] + 1] = Hole]
(* the pair shifts with its spins exchanged *)
ShiftSwap(occ, mv) ==
  [occ EXCEPT ![mv[1] + 1] = occ[mv[3] + 1], ![mv[3] + 1] = Hole]

(***************************************************************************)
(* Diagonal energies, in quarters of the unit.                             *)
(***************************************************************************)
SumOver(S, Op(_)) == FoldSet(LAMBDA x, acc : acc + Op(x), 0, S)

StaticEnergy(m, occ) == SumOver(AntiBonds(m, occ), LAMBDA b : -2 * m.prm[Dressing(m, occ, b)])

HolePairs(m, occ, nb(_)) ==
  {p \in Holes(m, occ) \X Holes(m, occ) : p[1] < p[2] /\ p[2] \in nb(p[1])}
RepulsionEnergy(m, occ) ==
  4 * m.prm.VNN * Cardinality(HolePairs(m, occ, LAMBDA s : Nbr(m.lat, s)))
  + 4 * m.prm.VNNNper * Cardinality(HolePairs(m, occ, LAMBDA s : Diag(m.lat, s)))

StateEnergy(m, occ) == StaticEnergy(m, occ) + RepulsionEnergy(m, occ)

(***************************************************************************)
(* Rows.  An event is <<label, target, amplitude>>; distinct moves have    *)
(* distinct labels so that equal contributions are not merged.             *)
(***************************************************************************)
Events(m, occ, term) ==
  CASE term = "t"  -> {<<mv, Swap(occ, mv[1], mv[2]), 4 * m.prm.t>> : mv \in HopMoves(m, occ)}
    [] term = "tN" -> {<<mv, Swap(occ, mv[1], mv[2]), 4 * m.prm.tstraight>> : mv \in StraightMoves(m, occ)}
                      \cup {<<mv, Swap(occ, mv[1], mv[2]), 4 * m.prm.tbent>> : mv \in BentMoves(m, occ)}
    [] term = "ij" -> {<<b, Swap(occ, b[1], b[2]), 2 * m.prm[Dressing(m, occ, b)]>> : b \in AntiBonds(m, occ)}
    [] term = "SD" -> LET a(mv) == 4 * (IF SingletPar(m, mv) THEN m.prm.hpar ELSE m.prm.hper)
                      IN  {<<<<mv, 1>>, ShiftKeep(occ, mv), a(mv)>> : mv \in SingletMoves(m, occ)}
                          \cup {<<<<mv, 2>>, ShiftSwap(occ, mv), -a(mv)>> : mv \in SingletMoves(m, occ)}
    [] term = "z"  -> {<<0, occ, StaticEnergy(m, occ)>>}
    [] term = "V"  -> {<<0, occ, RepulsionEnergy(m, occ)>>}

(* Contributions of the selected terms, as <<term, event>> pairs.          *)
AllEvents(m, occ, sel) == UNION {{<<term, ev>> : ev \in Events(m, occ, term)} : term \in sel}

(* The row as a set of <<target, amplitude>> with non-zero amplitude.      *)
Row(m, occ, sel) ==
  LET evs == AllEvents(m, occ, sel)
      tgs == {x[2][2] : x \in evs}
      amp == [g \in tgs |-> SumOver({x \in evs : x[2][2] = g}, LAMBDA x : x[2][3])]
  IN  {<<g, amp[g]>> : g \in {y \in tgs : amp[y] # 0}}

RankedRow(m, occ, sel) == {<<Rank(p[1]), p[2]>> : p \in Row(m, occ, sel)}

(* The moves that a Hamiltonian can make, whatever the couplings.          *)
Successors(m, occ) ==
  {Swap(occ, mv[1], mv[2]) : mv \in HopMoves(m, occ) \cup StraightMoves(m, occ)
                                    \cup BentMoves(m, occ) \cup AntiBonds(m, occ)}
  \cup UNION {{ShiftKeep(occ, mv), ShiftSwap(occ, mv)} : mv \in SingletMoves(m, occ)}
=============================================================================
