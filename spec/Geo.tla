-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Judges what the code says about lattices, site by site.                 *)
(*   rows   : adjacency matrix, one list of 0/1 per site                   *)
(*   align  : per site a, triples <<b, c, answer>> of the alignment test   *)
(*            (1 aligned, 0 bent, 2 rejected with an error)                *)
(*   near, near2, second, diagonal : query results per site, restricted to *)
(*            the allowed sites r (empty: no restriction)                  *)
(*   near3, second3, bonds3 : the same with the allowed sites given as two *)
(*            lists a and b, for the first and the second end of a bond    *)
(*   bonds  : the list of bonds between allowed sites                      *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)
Lats == [k \in 1 .. N |-> Lattice(Scn[k].kind, Scn[k].w, Scn[k].h)]

VARIABLES k, s
vars == <<k, s>>
Init == k \in 1 .. N /\ s = -1
Next == s < Lats[k].n - 1 /\ s' = s + 1 /\ k' = k
Spec == Init /\ [][Next]_vars

S == Scn[k]
L == Lats[k]
R == IF "r" \notin DOMAIN S \/ S.r = <<>> THEN L.sites ELSE {S.r[i] : i \in 1 .. Len(S.r)}
Set(f) == {S[f][i] : i \in 1 .. Len(S[f])}
Has(f) == f \in DOMAIN S
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, s, clause, [kind |-> S.kind, w |-> S.w, h |-> S.h], x>>))

ValidTriple(a, b, c) == IsPath3(L, a, b, c)
AlignWant(a, b, c) == IF ~ValidTriple(a, b, c) THEN 2 ELSE IF Aligned3(L, a, b, c) THEN 1 ELSE 0

SameList(f, want) ==
  LET rec == S[f][s + 1]
  IN  \/ rec.err = "" /\ Len(rec.val) = Cardinality(want) /\ {rec.val[i] : i \in 1 .. Len(rec.val)} = want
      \/ Say(f, <<rec, want>>)

Judge ==
  IF s = -1
  THEN /\ Has("err") => S.err = "" \/ Say("raised", S.err)
       /\ Has("rows") => Len(S.rows) = L.n \/ Say("number of sites", Len(S.rows))
       /\ Has("bonds") => \/ /\ S.bonds.err = ""
                             /\ Len(S.bonds.val) = Cardinality({b \in L.bonds : b[1] \in R /\ b[2] \in R})
                             /\ {S.bonds.val[i] : i \in 1 .. Len(S.bonds.val)}
                                   = {b \in L.bonds : b[1] \in R /\ b[2] \in R}
                          \/ Say("bond list", S.bonds)
       /\ Has("bonds3") => LET want == {b \in L.bonds : b[1] \in Set("a") /\ b[2] \in Set("b")}
                           IN  \/ /\ S.bonds3.err = "" /\ Len(S.bonds3.val) = Cardinality(want)
                                  /\ {S.bonds3.val[i] : i \in 1 .. Len(S.bonds3.val)} = want
                               \/ Say("bond list, ends restricted separately", <<S.a, S.b, S.bonds3>>)
  ELSE /\ Has("rows") /\ s < Len(S.rows) =>
            \/ S.rows[s + 1] = [i \in 1 .. L.n |-> IF (i - 1) \in Nbr(L, s) THEN 1 ELSE 0]
            \/ Say("adjacency of the site", S.rows[s + 1])
       /\ Has("align") => LET bad == {t \in {S.align[s + 1][i] : i \in 1 .. Len(S.align[s + 1])} :
                                        t[3] # AlignWant(s, t[1], t[2])}
                          IN  bad = {} \/ Say("alignment", bad)
       /\ Has("near")     => SameList("near", Nbr(L, s) \cap R)
       /\ Has("near2")    => SameList("near2", Nbr(L, s) \cap R)
       /\ Has("second")   => SameList("second", Sec(L, s) \cap R)
       /\ Has("near3")    => SameList("near3", Nbr(L, s) \cap Set("b"))
       /\ Has("second3")  => SameList("second3", Sec(L, s) \cap Set("b"))
       /\ Has("diagonal") => SameList("diagonal", Diag(L, s) \cap R)

(* Facts about the specified lattices themselves.                          *)
SpecSound ==
  s = -1 \/
  /\ Cardinality(Nbr(L, s)) \in 0 .. 4
  /\ \A r \in Nbr(L, s) : s \in Nbr(L, r) /\ r # s /\ Nbr(L, s) \cap Nbr(L, r) = {}
  /\ \A r \in L.sites \ {s} : At(L, r) # At(L, s)
  /\ Straight(L, s) \cap Diag(L, s) = {} /\ Straight(L, s) \cup Diag(L, s) = Sec(L, s)
=============================================================================
