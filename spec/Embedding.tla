----------------------------- MODULE Embedding -----------------------------
(***************************************************************************)
(* Self-consistent embedding of a block as a machine whose state is the    *)
(* last ground state and the field it exerts through the surroundings.     *)
(*                                                                         *)
(* kind "ring": the block is surrounded by the ring of the "peripheral"    *)
(* lattice.  The field starts as the spin wave that is down on the ring    *)
(* sites of odd x + y, then mirrors the densities of the facing block      *)
(* sites with spins exchanged.                                             *)
(* kind "blocks": a second block lies east of the first (the "clusters"    *)
(* lattice).  The field is the densities of the last ground state, with    *)
(* spins exchanged when rev; with four, the dressing acts through the four *)
(* rotations of the block.                                                 *)
(*                                                                         *)
(* Ground states are given to the code by a stand-in for the diagonalizer: *)
(* integer vectors of squared norm nrm (divided by their norm).  Densities *)
(* are kept as numerators over nrm and amplitudes in units of 1/(4 nrm).   *)
(***************************************************************************)
EXTENDS Geometry, Determinants, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, it, prev, field, conv
vars == <<k, it, prev, field, conv>>
S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, it, clause, [kind |-> S.kind, w |-> S.w, h |-> S.h, nh |-> S.nh, nb |-> S.nb], x>>))

(* The lattice of the block and its surroundings.                          *)
Around(s) == Lattice(IF s.kind = "ring" THEN "peripheral" ELSE "clusters", s.w, s.h)
Foreign(L, s) == {r \in L.sites : r >= s.n}

(* <<hole, down, up>> densities of a vector on the block, numerators.      *)
Densities(s, v) ==
  LET occs == [i \in 1 .. Len(v) |-> Unrank(s.n, s.nh, s.nb, i - 1)]
  IN  FoldLeft(LAMBDA a, i : IF v[i] = 0 THEN a
                             ELSE [q \in 1 .. s.n |-> [a[q] EXCEPT ![IF occs[i][q] = Hole THEN 1 ELSE IF occs[i][q] = Down THEN 2 ELSE 3] = @ + v[i] * v[i]]],
               [q \in 1 .. s.n |-> <<0, 0, 0>>], [i \in 1 .. Len(v) |-> i])
Exchanged(d) == <<d[1], d[3], d[2]>>

(* Field on the foreign sites, indexed by site - n + 1.                    *)
SpinWave(L, s) == [r \in 1 .. L.n - s.n |-> IF (L.xy[s.n + r][1] + L.xy[s.n + r][2]) % 2 = 1 THEN <<0, s.nrm, 0>> ELSE <<0, 0, s.nrm>>]
Facing(L, s, r) == CHOOSE q \in Nbr(L, r) : q < s.n
Field(L, s, v) ==
  LET d == Densities(s, v) IN
  IF s.kind = "ring" THEN [r \in 1 .. L.n - s.n |-> Exchanged(d[Facing(L, s, s.n + r - 1) + 1])]
  ELSE [r \in 1 .. s.n |-> IF s.rev THEN Exchanged(d[r]) ELSE d[r]]

(* Mean field energy of a state of the block, in units of 1/(4 nrm).       *)
Pair(s, o, f) == IF o = Up THEN -2 * s.J * f[2] ELSE IF o = Down THEN -2 * s.J * f[3] ELSE 4 * s.VNN * f[1]
FarPair(s, o, f) == IF o = Hole THEN 4 * s.VNNNper * f[1] ELSE 0
SumOver(set, Op(_)) == FoldSet(LAMBDA x, a : a + Op(x), 0, set)
Energy(L, s, occ, f) ==
  LET F == Foreign(L, s) IN
  SumOver(0 .. s.n - 1, LAMBDA q : SumOver(Nbr(L, q) \cap F, LAMBDA r : Pair(s, occ[q + 1], f[r - s.n + 1]))
                                   + SumOver(Diag(L, q) \cap F, LAMBDA r : FarPair(s, occ[q + 1], f[r - s.n + 1])))
Turns == {"id", "rot90", "rot180", "rot270"}
Dressing(L, s, f) ==
  LET e == TLCEval([i \in 1 .. s.dim |-> Energy(L, s, Unrank(s.n, s.nh, s.nb, i - 1), f)])
      block == Lattice("periodic", s.w, s.h)
  IN  IF s.kind = "blocks" /\ s.four
      THEN LET perms == TLCEval([g \in Turns |-> SitePerm(block, g)]) IN
           [i \in 1 .. s.dim |-> SumOver(Turns, LAMBDA g : e[Rank(Permute(Unrank(s.n, s.nh, s.nb, i - 1), perms[g])) + 1])]
      ELSE e

(* A dressed matrix: rows are sequences of <<column, amplitude>>.          *)
Entries(row) == {<<row[j][1], row[j][2]>> : j \in 1 .. Len(row)}
Scaled(s, row) == {<<x[1], s.nrm * x[2]>> : x \in Entries(row)}
Diagonal(set, i) == IF \E x \in set : x[1] = i THEN (CHOOSE x \in set : x[1] = i)[2] ELSE 0
SameRow(s, got, base, i, add) ==
  LET g == Entries(got)  b == Scaled(s, base) IN
  /\ {x \in g : x[1] # i} = {x \in b : x[1] # i}
  /\ Diagonal(g, i) = Diagonal(b, i) + add
SameMatrix(s, got, add, clause) ==
  \A i \in 1 .. s.dim : SameRow(s, got[i], s.H[i], i - 1, add[i]) \/ Say(clause, <<i - 1, got[i], s.H[i], add[i], s.nrm>>)

Distance(u, v) == FoldLeft(LAMBDA a, i : a + (u[i] - v[i]) * (u[i] - v[i]), 0, [i \in 1 .. Len(u) |-> i])

Init == /\ k \in 1 .. N /\ it = 0 /\ conv = FALSE /\ prev = S.v0
        /\ field = TLCEval(IF S.kind = "ring" THEN SpinWave(Around(S), S) ELSE Field(Around(S), S, S.v0))
Next == /\ it < Len(S.runs) /\ it' = it + 1 /\ k' = k
        /\ prev' = S.runs[it + 1].v
        /\ conv' = (Distance(prev, prev') <= S.m)
        /\ field' = TLCEval(Field(Around(S), S, prev'))
Spec == Init /\ [][Next]_vars

(* Properties of the field itself: every foreign site holds one particle.  *)
SpecSound == \A r \in 1 .. Len(field) : field[r][1] + field[r][2] + field[r][3] = S.nrm

Result(s, r, before, clause) ==
  /\ r.vec = prev \/ Say(clause \o ": ground state", <<r.vec, prev>>)
  /\ r.val = s.runs[Len(s.runs)].val \/ Say(clause \o ": energy", <<r.val, s.runs[Len(s.runs)].val>>)
  /\ <<r.nh, r.nb>> = <<s.nh, s.nb>> \/ Say(clause \o ": content", r)
  /\ IF s.kind = "ring" THEN SameMatrix(s, r.ham, [i \in 1 .. s.dim |-> 0], clause \o ": Hamiltonian")
     ELSE (\A i \in 1 .. s.dim : Entries(r.ham[i]) = Entries(before[i])) \/ Say(clause \o ": Hamiltonian", r.ham)

Judge ==
  IF S.err # "" THEN it < Len(S.runs) \/ Say("raised", S.err)
  ELSE IF it < Len(S.runs)
  THEN /\ ~conv \/ Say("went on after convergence", <<prev, S.m>>)
       /\ it < S.maxit \/ Say("went on after the iteration limit", S.maxit)
       /\ SameMatrix(S, S.runs[it + 1].A, Dressing(Around(S), S, field), "dressed Hamiltonian")
  ELSE /\ conv \/ it = S.maxit \/ Say("stopped too early", <<prev, S.m, S.maxit>>)
       /\ (S.kind = "ring" \/ conv) =>
            /\ Len(S.ret) = 1 \/ Say("no result", S.ret)
            /\ Len(S.saved) = 1 \/ Say("result not saved", S.saved)
            /\ \A x \in 1 .. Len(S.ret) : Result(S, S.ret[x], S.runs[it].A, "returned")
            /\ \A x \in 1 .. Len(S.saved) : Result(S, S.saved[x], S.runs[it].A, "saved")
=============================================================================
