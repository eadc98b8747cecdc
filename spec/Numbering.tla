----------------------------- MODULE Numbering -----------------------------
(***************************************************************************)
(* Numbers of sampled states of lattices too large to enumerate.           *)
(***************************************************************************)
EXTENDS Determinants, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)
VARIABLES k, phase
vars == <<k, phase>>
Init == k \in 1 .. N /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ k' = k
Spec == Init /\ [][Next]_vars

S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, 0, clause, S, x>>))
Has(f) == f \in DOMAIN S
Same(f, clause, want) ==
  \/ S[f].err = "" /\ S[f].val = want
  \/ Say(clause, <<S[f], want>>)

Judge ==
  \/ phase = 0
  \/ /\ Has("num")  => Same("num", "number of the state", Rank(S.occ))
     /\ Has("hash") => Same("hash", "number of the ordered state", Rank(S.occ))
     /\ Has("back") => Same("back", "state with this number", ToDet(Unrank(S.n, S.nh, S.nb, S.ind)))
     /\ Has("dim")  => Same("dim", "dimension", Dim(S.n, S.nh, S.nb))
     /\ Has("ms2")  => Same("ms2", "twice the spin projection", S.n - S.nh - 2 * S.nb)
     /\ (Has("num") => /\ Unrank(S.n, S.nh, S.nb, Rank(S.occ)) = S.occ
                       /\ Rank(S.occ) \in 0 .. Dim(S.n, S.nh, S.nb) - 1)
        \/ Say("specification numbering", 0)
=============================================================================
