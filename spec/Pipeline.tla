------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* A complete computation: first the states are enumerated (basis and row  *)
(* of the Hamiltonian judged in every state), then the reported eigenpairs *)
(* are judged one by one.                                                  *)
(*                                                                         *)
(* The spectrum is known through a certificate that comes with the         *)
(* recording: dim approximate eigenvectors q (units 1e-5) with values d    *)
(* (units 1e-4 quarters).  The machine verifies that they are orthonormal  *)
(* and have small residuals on the SPECIFIED Hamiltonian, so that they     *)
(* approximate the whole spectrum, degeneracies included.                  *)
(***************************************************************************)
EXTENDS TJ, SpinOps, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)
Lats == [k \in 1 .. N |-> Lattice(Scn[k].kind, Scn[k].w, Scn[k].h)]
AllowedOf(k) == IF Scn[k].r = <<>> THEN 0 .. Lats[k].n - 1 ELSE {Scn[k].r[i] : i \in 1 .. Len(Scn[k].r)}
Allowed == [k \in 1 .. N |-> AllowedOf(k)]

VARIABLES k, occ, phase, i, want
vars == <<k, occ, phase, i, want>>
S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, phase, i, clause, x>>))

Model(kk) == [lat |-> Lats[kk], r |-> Allowed[kk], r2 |-> Allowed[kk], prm |-> Scn[kk].prm]
SpecRow(kk, o) == RankedRow(Model(kk), o, {Scn[kk].sel[j] : j \in 1 .. Len(Scn[kk].sel)})
Entries(row) == {row[j] : j \in 1 .. Len(row)}

(* want collects the specified rows while the states are enumerated.       *)
Init == /\ k \in 1 .. N /\ phase = "states" /\ i = 0
        /\ occ = FirstOcc(Lats[k].n, Scn[k].nh, Scn[k].nb)
        /\ want = <<TLCEval(SpecRow(k, occ))>>
Next == /\ k' = k /\ S.err = ""
        /\ \/ /\ phase = "states" /\ HasSuccessor(occ) /\ occ' = Successor(occ)
              /\ want' = Append(want, TLCEval(SpecRow(k, occ'))) /\ UNCHANGED <<phase, i>>
           \/ /\ phase = "states" /\ ~HasSuccessor(occ) /\ phase' = "spectrum" /\ i' = 1 /\ UNCHANGED <<occ, want>>
           \/ /\ phase = "spectrum" /\ UNCHANGED <<occ, want>>
              /\ IF i < S.dim THEN i' = i + 1 /\ phase' = phase ELSE i' = 1 /\ phase' = "pairs"
           \/ /\ phase = "pairs" /\ i < Len(S.val) /\ i' = i + 1 /\ UNCHANGED <<occ, want, phase>>
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Dot(u, v) == FoldLeft(LAMBDA a, j : a + u[j] * v[j], 0, [j \in 1 .. Len(u) |-> j])
Coarse(u, f) == [j \in 1 .. Len(u) |-> (u[j] + f \div 2) \div f]
(* d * x in units of 1e-5 quarters, d in 1e-4 quarters and x in 1e-5.      *)
Times(d, x) == (d \div 10000) * x + ((d % 10000) * x) \div 10000
Image(rows, v, r) == SumOver(rows[r], LAMBDA e : e[2] * v[e[1] + 1])
RowSize(rows, r) == SumOver(rows[r], LAMBDA e : Abs(e[2]))
Residual(rows, v, d, r) == Image(rows, v, r) - Times(d, v[r])
(* Rounding of the vector and of the value, and the accuracy asked for.    *)
Slack(rows, d, r) == RowSize(rows, r) + Abs(d) \div 10000 + 60 + S.tol5
SmallResidual(rows, v, d) == \A r \in 1 .. S.dim : Abs(Residual(rows, v, d, r)) <= Slack(rows, d, r)
Unit(v) == LET c == Coarse(v, 10) IN Abs(Dot(c, c) - 100000000) <= 100000
Perp(u, v) == Abs(Dot(Coarse(u, 10), Coarse(v, 10))) <= 100000

JudgeState ==
  LET rk == Rank(occ) IN
  /\ (rk = 0) => /\ (Len(S.dets) = Dim(Lats[k].n, S.nh, S.nb)) \/ Say("number of states", Len(S.dets))
                 /\ Len(S.rows) = Dim(Lats[k].n, S.nh, S.nb) \/ Say("dimension of the Hamiltonian", Len(S.rows))
                 /\ <<S.gotnh, S.gotnb>> = <<S.nh, S.nb>> \/ Say("content of the result", <<S.gotnh, S.gotnb>>)
                 /\ S.times \/ Say("computation times", S.times)
  /\ (rk < Len(S.dets) => S.dets[rk + 1] = ToDet(occ)) \/ Say("state", <<rk, S.dets[rk + 1]>>)
  /\ (rk < Len(S.rows) => Entries(S.rows[rk + 1]) = want[rk + 1])
     \/ Say("row", [missing |-> want[rk + 1] \ Entries(S.rows[rk + 1]), extra |-> Entries(S.rows[rk + 1]) \ want[rk + 1]])

JudgeSpectrum ==
  /\ (i = 1) => ((Len(S.q) = S.dim /\ Len(S.d) = S.dim) \/ Say("the recorder's certificate is wrong: size", S.dim))
  /\ SmallResidual(want, S.q[i], S.d[i]) \/ Say("the recorder's certificate is wrong: residual", i)
  /\ Unit(S.q[i]) \/ Say("the recorder's certificate is wrong: norm", i)
  /\ \A j \in 1 .. i - 1 : (Perp(S.q[i], S.q[j]) /\ S.d[j] <= S.d[i]) \/ Say("the recorder's certificate is wrong: order", <<i, j>>)

(* 4 <S^2> of a vector in units of 1e-3, times 1e6.                        *)
FourS2(v) == LET c == Coarse(v, 100) IN
  FoldLeft(LAMBDA a, r : a + c[r] * S2At4(c, Unrank(Lats[k].n, S.nh, S.nb, r - 1)), 0, [r \in 1 .. S.dim |-> r])
Norm6(v) == LET c == Coarse(v, 100) IN Dot(c, c)
(* k2 / 2 is the half integer nearest to the spin, up to 2 percent of a unit of <S^2>. *)
NearestHalf(k2, nn, dd) ==
  LET x4 == (nn + dd) \div 1000   y == dd \div 1000   \* (4 <S^2> + 1) y
  IN  /\ k2 >= 0
      /\ k2 = 0 \/ (2 * k2 + 1) * (2 * k2 + 1) * y <= 4 * x4 + y \div 3
      /\ 4 * x4 <= (2 * k2 + 3) * (2 * k2 + 3) * y + y \div 3

Near(e, d) == Abs(e - d) <= 60 + S.tol4
JudgePair ==
  /\ (i = 1) =>
       /\ (Len(S.val) = (IF S.nbval < S.dim THEN S.nbval ELSE S.dim) /\ Len(S.vec) = Len(S.val)) \/ Say("number of eigenpairs", <<Len(S.val), Len(S.vec)>>)
       /\ Len(S.spin2) = (IF S.spins THEN Len(S.val) ELSE 0) \/ Say("number of spins", <<S.spins, S.spin2>>)
       /\ (Len(S.opp) = Len(S.val) /\ \A j \in 1 .. Len(S.opp) : Near(S.opp[j], S.d[j])) \/ Say("spectrum of the opposite projection", <<S.opp, S.d>>)
  /\ Len(S.val) = 0 \/
     (/\ Near(S.val[i], S.d[i]) \/ Say("not the lowest eigenvalues", <<S.val[i], S.d[i]>>)
      /\ (i = 1 \/ S.val[i - 1] <= S.val[i]) \/ Say("not in increasing order", S.val)
      /\ SmallResidual(want, S.vec[i], S.val[i]) \/ Say("not an eigenvector of the specified Hamiltonian", S.val[i])
      /\ Unit(S.vec[i]) \/ Say("norm", S.vec[i])
      /\ \A j \in 1 .. i - 1 : Perp(S.vec[i], S.vec[j]) \/ Say("vectors not orthogonal", j)
      /\ (S.spins /\ i <= Len(S.spin2)) => (NearestHalf(S.spin2[i], FourS2(S.vec[i]), Norm6(S.vec[i]))
                                            \/ Say("spin", <<S.spin2[i], FourS2(S.vec[i]), Norm6(S.vec[i])>>)))

Judge == IF S.err # "" THEN Say("raised", S.err)
         ELSE CASE phase = "states"   -> JudgeState
                [] phase = "spectrum" -> JudgeSpectrum
                [] phase = "pairs"    -> JudgePair
=============================================================================
