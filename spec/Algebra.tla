------------------------------- MODULE Algebra -------------------------------
(***************************************************************************)
(* Algebraic identities between recorded operators, decided row by row     *)
(* while walking the whole state space of each scenario:                   *)
(*   symmetries : the recorded Hamiltonian is invariant under every        *)
(*                isometry of its lattice                                  *)
(*   others     : recorded Hamiltonians of other descriptions of the same  *)
(*                system (other indexing, reflected lattice, reversed      *)
(*                spins) are the same up to renumbering                    *)
(*   s2         : the recorded Hamiltonian commutes with S^2 (recorded     *)
(*                when given, specified otherwise)                         *)
(*   up         : it intertwines with the total raising operator, up being *)
(*                the recorded Hamiltonian with one spin down less         *)
(***************************************************************************)
EXTENDS Geometry, SpinOps, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)
Lats == [k \in 1 .. N |-> Lattice(Scn[k].kind, Scn[k].w, Scn[k].h)]
Perms == [k \in 1 .. N |-> IF "symmetries" \in DOMAIN Scn[k]
                           THEN {SitePerm(Lats[k], g) : g \in ApplicableIsometries(Lats[k])} ELSE {}]
OtherPerm(L, o) ==
  LET b  == Box(L)
      L2 == Lattice(o.kind, o.w, o.h)
  IN  [i \in 1 .. L.n |-> CHOOSE s \in L2.sites : At(L2, s) = MapPoint(o.g, L.xy[i], b.x0, b.x1, b.y0, b.y1)]
OtherPerms == [k \in 1 .. N |-> IF "others" \in DOMAIN Scn[k]
                                THEN [j \in 1 .. Len(Scn[k].others) |-> OtherPerm(Lats[k], Scn[k].others[j])] ELSE <<>>]

VARIABLES k, occ
vars == <<k, occ>>
S == Scn[k]
Init == k \in 1 .. N /\ occ = FirstOcc(Lats[k].n, Scn[k].nh, Scn[k].nb)
Next == HasSuccessor(occ) /\ occ' = Successor(occ) /\ k' = k
Spec == Init /\ [][Next]_vars

Has(f) == f \in DOMAIN S
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, Rank(occ), clause, ToDet(occ), x>>))

StateOf(c) == Unrank(S.n, S.nh, S.nb, c)
Pairs(row) == {row[i] : i \in 1 .. Len(row)}
Complete(rows, d) == Len(rows) = d
Moved(row, Tr(_)) == {<<Rank(Tr(StateOf(p[1]))), p[2]>> : p \in Pairs(row)}

Here == S.rows[Rank(occ) + 1]

Symmetric(perm) ==
  \/ Moved(Here, LAMBDA x : Permute(x, perm)) = Pairs(S.rows[Rank(Permute(occ, perm)) + 1])
  \/ Say("not invariant under the site permutation", perm)

SameAs(j) ==
  LET o == S.others[j]
      Tr(x) == IF o.flip THEN FlipAll(Permute(x, OtherPerms[k][j])) ELSE Permute(x, OtherPerms[k][j])
  IN  \/ /\ o.err = ""
         /\ Complete(o.rows, Len(S.rows))
         /\ Moved(Here, Tr) = Pairs(o.rows[Rank(Tr(occ)) + 1])
      \/ Say("differs from the description " \o ToString(<<o.kind, o.w, o.h, o.g, o.flip>>), o.err)

(* Row products.                                                           *)
S2Of(c) == IF Has("s2") THEN Pairs(S.s2[c + 1]) ELSE S2Row4(StateOf(c))
Product(row, Next2(_)) ==     \* sum over <<c, a>> in row of a * Next2(c), as <<column, value>> without zeros
  LET terms == UNION {{<<p[1], q[1], p[2] * q[2]>> : q \in Next2(p[1])} : p \in row}
      cols  == {t[2] : t \in terms}
      val   == [c \in cols |-> SumBy({t \in terms : t[2] = c}, LAMBDA t : t[3])]
  IN  {<<c, val[c]>> : c \in {x \in cols : val[x] # 0}}

Commutes ==
  LET hs == Product(Pairs(Here), S2Of)
      sh == Product(S2Of(Rank(occ)), LAMBDA c : Pairs(S.rows[c + 1]))
  IN  hs = sh \/ Say("does not commute with S^2", [hs |-> hs \ sh, sh |-> sh \ hs])

(* Row occ of (S- Hup) against row occ of (H S-), both from the content of *)
(* the scenario to the one with one spin down less.                        *)
Intertwines ==
  LET upr == {<<Rank(g), 1>> : g \in Raised(occ)}
      a   == Product(upr, LAMBDA c : Pairs(S.up[c + 1]))
      b   == Product(Pairs(Here), LAMBDA c : {<<Rank(g), 1>> : g \in Raised(StateOf(c))})
  IN  a = b \/ Say("does not intertwine with the raising operator", [hs |-> a \ b, sh |-> b \ a])

Judge ==
  IF S.err # "" \/ ~Complete(S.rows, Dim(S.n, S.nh, S.nb))
  THEN Rank(occ) # 0 \/ Say("no Hamiltonian", <<S.err, Len(S.rows)>>)
  ELSE /\ \A perm \in Perms[k] : Symmetric(perm)
       /\ Has("others") => \A j \in 1 .. Len(S.others) : SameAs(j)
       /\ Has("commute") => Commutes
       /\ Has("up") => Intertwines
=============================================================================
