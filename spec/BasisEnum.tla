----------------------------- MODULE BasisEnum -----------------------------
(***************************************************************************)
(* The enumeration of the states of a particle content as a machine that   *)
(* steps through them in lexicographic order, checked step by step against *)
(* recorded bases (dets), recorded numbers (nums: the number the code      *)
(* gives to the i-th state listed in some other order) and recorded states *)
(* (back: the state the code gives to the number i - 1).                   *)
(***************************************************************************)
EXTENDS Determinants, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, i, occ
vars == <<k, i, occ>>

S == Scn[k]
Init == k \in 1 .. N /\ i = 1 /\ occ = FirstOcc(S.n, S.nh, S.nb)
Next == HasSuccessor(occ) /\ occ' = Successor(occ) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_vars

Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, i, clause, ToDet(occ), x>>))
Has(f) == f \in DOMAIN S
Item(f, clause, want) ==
  \/ S[f].err = "" /\ i <= Len(S[f].val) /\ S[f].val[i] = want
  \/ Say(clause, IF S[f].err # "" THEN S[f].err ELSE IF i <= Len(S[f].val) THEN ToString(S[f].val[i]) ELSE "missing")
Once(f, clause, want) ==
  \/ i # 1
  \/ S[f].err = "" /\ S[f].val = want
  \/ Say(clause, IF S[f].err # "" THEN S[f].err ELSE ToString(<<S[f].val, want>>))
Length(f, clause) ==
  HasSuccessor(occ) \/ Len(S[f].val) = i \/ Say(clause, Len(S[f].val))

Judge ==
  /\ Has("dets") => Item("dets", "state at this position", ToDet(occ)) /\ Length("dets", "length of the basis")
  /\ Has("again") => Item("again", "state at this position (another lattice)", ToDet(occ)) /\ Length("again", "length of the basis")
  /\ Has("nums") => Item("nums", "number of the state", i - 1)
  /\ Has("hash") => Item("hash", "number of the ordered state", i - 1)
  /\ Has("back") => Item("back", "state with this number", ToDet(occ))
  /\ Has("sort") => Item("sort", "reordered state", ToDet(occ))
  (* nsites, holes, betas, alphas, dimension, twice Sz, doping * sites *)
  /\ Has("conf") => Once("conf", "announced quantities",
        <<S.n, S.nh, S.nb, S.n - S.nh - S.nb, Dim(S.n, S.nh, S.nb), S.n - S.nh - 2 * S.nb, S.nh>>)

(* The specification numbers its own states consistently.                  *)
SpecSound == /\ Rank(occ) = i - 1
             /\ Unrank(S.n, S.nh, S.nb, i - 1) = occ
             /\ IsDet(ToDet(occ), S.n) /\ IsCanonical(ToDet(occ), S.nh, S.nb)
             /\ ToOcc(ToDet(occ), S.nh, S.nb) = occ
             /\ HasSuccessor(occ) = (i < Dim(S.n, S.nh, S.nb))
=============================================================================
