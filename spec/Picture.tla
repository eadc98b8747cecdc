------------------------------ MODULE Picture ------------------------------
(***************************************************************************)
(* Judges the pictures drawn from saved computations.                      *)
(*                                                                         *)
(* A scenario is a saved computation (lattice, content, eigenvalues, one   *)
(* vector of odd integers u per eigenstate, the coefficients being u half  *)
(* units), that of the ground state of an embedding, what was asked for,   *)
(* and what the pictures that were saved show:                             *)
(*   spectrum  : segments <<x0, x1, y0, y1>>                               *)
(*   holes     : one panel per eigenstate, a map each                      *)
(*   electrons : three panels: spins up, spins down, difference            *)
(*   amplitude : one panel per eigenstate, points <<x, y>> of a curve      *)
(*   effect    : two rows of bars                                          *)
(* A map is the number shown at each site, in thousandths, south row       *)
(* first, and the marked places.                                           *)
(*                                                                         *)
(* The enumeration machine accumulates the densities of every eigenstate;  *)
(* the pictures are judged in the last state.                              *)
(***************************************************************************)
EXTENDS Determinants, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, occ, acc, den
vars == <<k, occ, acc, den>>
S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, clause, x>>))

Weight(kk, j, o) == Scn[kk].vecs[j][Rank(o) + 1] * Scn[kk].vecs[j][Rank(o) + 1]
Column(o) == [i \in 1 .. Len(o) |-> IF o[i] = Hole THEN 1 ELSE IF o[i] = Down THEN 2 ELSE 3]
AddAll(kk, a, o) ==
  TLCEval([j \in 1 .. Len(a) |-> [i \in 1 .. Len(o) |-> [a[j][i] EXCEPT ![Column(o)[i]] = @ + Weight(kk, j, o)]]])
AddDen(kk, d, o) == TLCEval([j \in 1 .. Len(d) |-> d[j] + Weight(kk, j, o)])

Init == /\ k \in 1 .. N
        /\ occ = FirstOcc(Scn[k].n, Scn[k].nh, Scn[k].nb)
        /\ acc = AddAll(k, [j \in 1 .. Len(Scn[k].vecs) |-> [i \in 1 .. Scn[k].n |-> <<0, 0, 0>>]], occ)
        /\ den = AddDen(k, [j \in 1 .. Len(Scn[k].vecs) |-> 0], occ)
Next == /\ HasSuccessor(occ) /\ occ' = Successor(occ) /\ k' = k
        /\ acc' = AddAll(k, acc, occ') /\ den' = AddDen(k, den, occ')
Spec == Init /\ [][Next]_vars

Na == S.n - S.nh - S.nb
Least(a, b) == IF a < b THEN a ELSE b
Root(x) == CHOOSE r \in 0 .. x : r * r <= x /\ (r + 1) * (r + 1) > x
Abs(x) == IF x < 0 THEN -x ELSE x

(* The pictures that were asked for, as <<kind, state>>.                   *)
Wanted ==
  (IF S.ask.spectrum THEN {<<"spectrum", 0>>} ELSE {})
  \cup (IF S.ask.holes /\ S.nh > 0 THEN {<<"holes", 0>>} ELSE {})
  \cup (IF S.ask.electrons /\ Na * S.nb > 0 THEN {<<"electrons", j>> : j \in 0 .. Least(S.ask.nex, Len(S.vecs)) - 1} ELSE {})
  \cup (IF S.ask.amplitude THEN {<<"amplitude", 0>>} ELSE {})
  \cup (IF S.ask.neel \/ S.ask.static THEN {<<"effect", 0>>} ELSE {})

(* Panels: a square number of them, no more than asked for.                *)
Panels == Least(Root(S.ask.nplot) * Root(S.ask.nplot), Len(S.vecs))

Density(j, i, species) == IF species = 4 THEN acc[j][i][3] - acc[j][i][2] ELSE acc[j][i][species]
JudgeMap(p, j, species) ==
  /\ \/ Len(p.v) = S.h /\ \A y \in 1 .. S.h : Len(p.v[y]) = S.w
        /\ \A x \in 1 .. S.w : Abs(p.v[y][x] * den[j] - 1000 * Density(j, (y - 1) * S.w + x, species)) <= 15 * den[j]
     \/ Say("map", <<j, species, p.v, acc[j], den[j]>>)
  /\ \/ {p.marks[i] : i \in 1 .. Len(p.marks)} = {<<x, y>> : x \in 0 .. S.w - 1, y \in 0 .. S.h - 1}
     \/ Say("marks of the sites", p.marks)
Numbered(p) == \A i \in 1 .. Len(p.panels) : p.panels[i].number = i - 1

JudgeSpectrum(p) ==
  LET seg == p.segments
      at(y) == {i \in 1 .. Len(seg) : seg[i][3] = y}
  IN  \/ /\ \A i \in 1 .. Len(seg) : seg[i][3] = seg[i][4] /\ seg[i][1] < seg[i][2]
         /\ Len(seg) = Len(S.vals)
         /\ \A i \in 1 .. Len(S.vals) : Cardinality(at(S.vals[i])) = Cardinality({l \in 1 .. Len(S.vals) : S.vals[l] = S.vals[i]})
         /\ \A i, l \in 1 .. Len(seg) : (i < l /\ seg[i][3] = seg[l][3]) => (seg[i][2] <= seg[l][1] \/ seg[l][2] <= seg[i][1])
      \/ Say("spectrum", <<seg, S.vals>>)

Heap(v, x) == Cardinality({i \in 1 .. Len(v) : Abs(v[i]) >= 2 * x})
Top(v) == CHOOSE m \in {Abs(v[i]) : i \in 1 .. Len(v)} : \A i \in 1 .. Len(v) : Abs(v[i]) <= m
JudgeCurve(p, j) ==
  LET v == S.vecs[j] IN
  \/ /\ Len(p.points) > 0 /\ p.points[1][1] <= 0 /\ 2 * p.points[Len(p.points)][1] >= Top(v) - 1
     /\ \A i \in 1 .. Len(p.points) : p.points[i][2] = Heap(v, p.points[i][1])
     /\ \A i \in 2 .. Len(p.points) : p.points[i][1] = p.points[i - 1][1] + 1
  \/ Say("curve of amplitudes", <<j, p.points, v>>)

Squares(v) == SortSeq([i \in 1 .. Len(v) |-> v[i] * v[i]], LAMBDA a, b : a > b)
JudgeBars(p) ==
  LET m == Least(Len(S.vecs[1]), 30) IN
  \/ p.cluster = SubSeq(Squares(S.vecs[1]), 1, m) /\ p.embedding = SubSeq(Squares(S.emb), 1, m)
  \/ Say("bars", <<p.cluster, p.embedding, S.vecs[1], S.emb>>)

Named(p) == p.name = "tJ-H" \o ToString(S.n) \o ToString(Na) \o ToString(S.nb)

JudgePicture(p) ==
  /\ Named(p) \/ Say("name of the picture", p.name)
  /\ CASE p.what = "spectrum"  -> JudgeSpectrum(p)
       [] p.what = "holes"     -> /\ (Len(p.panels) = Panels /\ Numbered(p)) \/ Say("panels", <<Len(p.panels), Panels>>)
                                  /\ \A j \in 1 .. Least(Len(p.panels), Len(S.vecs)) : JudgeMap(p.panels[j], j, 1)
       [] p.what = "electrons" -> /\ (Len(p.panels) = 3 /\ p.number = p.state) \/ Say("panels", <<Len(p.panels), p.number>>)
                                  /\ JudgeMap(p.panels[1], p.state + 1, 3)
                                  /\ JudgeMap(p.panels[2], p.state + 1, 2)
                                  /\ JudgeMap(p.panels[3], p.state + 1, 4)
       [] p.what = "amplitude" -> /\ (Len(p.panels) = Panels /\ Numbered(p)) \/ Say("panels", <<Len(p.panels), Panels>>)
                                  /\ \A j \in 1 .. Least(Len(p.panels), Len(S.vecs)) : JudgeCurve(p.panels[j], j)
       [] p.what = "effect"    -> JudgeBars(p)
       [] OTHER -> Say("unknown picture", p.name)

Judge ==
  HasSuccessor(occ) \/
  IF S.err # "" THEN Say("raised", S.err)
  ELSE LET got == [i \in 1 .. Len(S.pics) |-> <<S.pics[i].what, S.pics[i].state>>]
       IN  /\ (Len(got) = Cardinality(Wanted) /\ {got[i] : i \in 1 .. Len(got)} = Wanted) \/ Say("pictures", <<got, Wanted>>)
           /\ \A i \in 1 .. Len(got) : got[i] \in Wanted => JudgePicture(S.pics[i])

SpecSound == \A j \in 1 .. Len(acc) : \A i \in 1 .. Len(acc[j]) : acc[j][i][1] + acc[j][i][2] + acc[j][i][3] = den[j]
=============================================================================
