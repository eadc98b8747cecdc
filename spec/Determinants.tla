---------------------------- MODULE Determinants ----------------------------
(***************************************************************************)
(* States of a lattice and their numbering.                                *)
(*                                                                         *)
(* The state is the occupation word occ, a sequence over {0, -1, 1} (hole, *)
(* spin down, spin up), site s at position s + 1.  The implementation      *)
(* writes the same state as a list of sites: holes, then spins down, then  *)
(* spins up, each in increasing order; states are numbered 0 .. dim-1 in   *)
(* lexicographic order of that list.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Hole == 0
Down == -1
Up   == 1

SitesOf(occ, v) == {i - 1 : i \in {j \in 1 .. Len(occ) : occ[j] = v}}
Ascending(S)    == SetToSortSeq(S, LAMBDA a, b : a < b)
CountOf(occ, v) == Cardinality(SitesOf(occ, v))

ToDet(occ) == Ascending(SitesOf(occ, Hole)) \o Ascending(SitesOf(occ, Down))
              \o Ascending(SitesOf(occ, Up))

(* A list is a determinant with nh holes and nb spins down when it names   *)
(* every site once; it is canonical when each species is increasing.       *)
IsDet(det, n) == Len(det) = n /\ {det[i] : i \in 1 .. Len(det)} = 0 .. n - 1
ToOcc(det, nh, nb) ==
  LET hs == {det[i] : i \in 1 .. nh}
      bs == {det[i] : i \in (nh + 1) .. (nh + nb)}
  IN  [i \in 1 .. Len(det) |-> IF (i - 1) \in hs THEN Hole
                               ELSE IF (i - 1) \in bs THEN Down ELSE Up]
IsCanonical(det, nh, nb) ==
  \A i \in 1 .. Len(det) - 1 : i \in {nh, nh + nb} \/ det[i] < det[i + 1]

Swap(occ, a, b) == [occ EXCEPT ![a + 1] = occ[b + 1], ![b + 1] = occ[a + 1]]
FlipAll(occ)    == [i \in DOMAIN occ |-> -occ[i]]
Permute(occ, perm) ==        \* the particle on site s goes to site perm[s + 1]
  [i \in 1 .. Len(occ) |-> occ[CHOOSE j \in 1 .. Len(occ) : perm[j] = i - 1]]

(***************************************************************************)
(* Numbering.                                                              *)
(***************************************************************************)
(* Pascal's triangle, row m + 1 for m places; written out because TLC       *)
(* evaluates a recursive definition anew at each use.                      *)
Pascal == <<
  <<1>>,
  <<1, 1>>,
  <<1, 2, 1>>,
  <<1, 3, 3, 1>>,
  <<1, 4, 6, 4, 1>>,
  <<1, 5, 10, 10, 5, 1>>,
  <<1, 6, 15, 20, 15, 6, 1>>,
  <<1, 7, 21, 35, 35, 21, 7, 1>>,
  <<1, 8, 28, 56, 70, 56, 28, 8, 1>>,
  <<1, 9, 36, 84, 126, 126, 84, 36, 9, 1>>,
  <<1, 10, 45, 120, 210, 252, 210, 120, 45, 10, 1>>,
  <<1, 11, 55, 165, 330, 462, 462, 330, 165, 55, 11, 1>>,
  <<1, 12, 66, 220, 495, 792, 924, 792, 495, 220, 66, 12, 1>>,
  <<1, 13, 78, 286, 715, 1287, 1716, 1716, 1287, 715, 286, 78, 13, 1>>,
  <<1, 14, 91, 364, 1001, 2002, 3003, 3432, 3003, 2002, 1001, 364, 91, 14, 1>>,
  <<1, 15, 105, 455, 1365, 3003, 5005, 6435, 6435, 5005, 3003, 1365, 455, 105, 15, 1>>,
  <<1, 16, 120, 560, 1820, 4368, 8008, 11440, 12870, 11440, 8008, 4368, 1820, 560, 120, 16, 1>>,
  <<1, 17, 136, 680, 2380, 6188, 12376, 19448, 24310, 24310, 19448, 12376, 6188, 2380, 680, 136, 17, 1>>,
  <<1, 18, 153, 816, 3060, 8568, 18564, 31824, 43758, 48620, 43758, 31824, 18564, 8568, 3060, 816, 153, 18, 1>>,
  <<1, 19, 171, 969, 3876, 11628, 27132, 50388, 75582, 92378, 92378, 75582, 50388, 27132, 11628, 3876, 969, 171, 19, 1>>,
  <<1, 20, 190, 1140, 4845, 15504, 38760, 77520, 125970, 167960, 184756, 167960, 125970, 77520, 38760, 15504, 4845, 1140, 190, 20, 1>>,
  <<1, 21, 210, 1330, 5985, 20349, 54264, 116280, 203490, 293930, 352716, 352716, 293930, 203490, 116280, 54264, 20349, 5985, 1330, 210, 21, 1>>,
  <<1, 22, 231, 1540, 7315, 26334, 74613, 170544, 319770, 497420, 646646, 705432, 646646, 497420, 319770, 170544, 74613, 26334, 7315, 1540, 231, 22, 1>>,
  <<1, 23, 253, 1771, 8855, 33649, 100947, 245157, 490314, 817190, 1144066, 1352078, 1352078, 1144066, 817190, 490314, 245157, 100947, 33649, 8855, 1771, 253, 23, 1>>,
  <<1, 24, 276, 2024, 10626, 42504, 134596, 346104, 735471, 1307504, 1961256, 2496144, 2704156, 2496144, 1961256, 1307504, 735471, 346104, 134596, 42504, 10626, 2024, 276, 24, 1>>,
  <<1, 25, 300, 2300, 12650, 53130, 177100, 480700, 1081575, 2042975, 3268760, 4457400, 5200300, 5200300, 4457400, 3268760, 2042975, 1081575, 480700, 177100, 53130, 12650, 2300, 300, 25, 1>>,
  <<1, 26, 325, 2600, 14950, 65780, 230230, 657800, 1562275, 3124550, 5311735, 7726160, 9657700, 10400600, 9657700, 7726160, 5311735, 3124550, 1562275, 657800, 230230, 65780, 14950, 2600, 325, 26, 1>>,
  <<1, 27, 351, 2925, 17550, 80730, 296010, 888030, 2220075, 4686825, 8436285, 13037895, 17383860, 20058300, 20058300, 17383860, 13037895, 8436285, 4686825, 2220075, 888030, 296010, 80730, 17550, 2925, 351, 27, 1>>,
  <<1, 28, 378, 3276, 20475, 98280, 376740, 1184040, 3108105, 6906900, 13123110, 21474180, 30421755, 37442160, 40116600, 37442160, 30421755, 21474180, 13123110, 6906900, 3108105, 1184040, 376740, 98280, 20475, 3276, 378, 28, 1>>
>>
ASSUME \A m \in 1 .. 28 : \A j \in 1 .. m + 1 :
  Pascal[m + 1][j] = (IF j = 1 THEN 0 ELSE Pascal[m][j - 1]) + (IF j = m + 1 THEN 0 ELSE Pascal[m][j])
Binom(n, k) == IF k < 0 \/ n < 0 \/ k > n THEN 0 ELSE Pascal[n + 1][k + 1]

Dim(n, nh, nb) == Binom(n, nh) * Binom(n - nh, nb)

(* Lexicographic rank, among the k-subsets of m ordered places, of the     *)
(* subset marked TRUE in the sequence marks of length m: every place that  *)
(* is passed over accounts for the subsets that take it.                   *)
RECURSIVE RankMarks(_, _, _)
RankMarks(marks, i, k) ==
  IF k = 0 THEN 0
  ELSE IF marks[i] THEN RankMarks(marks, i + 1, k - 1)
  ELSE Binom(Len(marks) - i, k - 1) + RankMarks(marks, i + 1, k)

Rank(occ) ==
  LET n  == Len(occ)
      el == SelectSeq(occ, LAMBDA v : v # Hole)
      nh == n - Len(el)
      ms == [i \in 1 .. Len(el) |-> el[i] = Down]
      nb == Cardinality({i \in 1 .. Len(el) : ms[i]})
  IN  RankMarks([i \in 1 .. n |-> occ[i] = Hole], 1, nh) * Binom(Len(el), nb)
      + RankMarks(ms, 1, nb)

(* Inverse of RankMarks: the marks of the r-th k-subset of m places.       *)
RECURSIVE UnrankMarks(_, _, _)
UnrankMarks(m, k, r) ==
  IF m = 0 THEN <<>>
  ELSE IF k > 0 /\ r < Binom(m - 1, k - 1) THEN <<TRUE>> \o UnrankMarks(m - 1, k - 1, r)
  ELSE <<FALSE>> \o UnrankMarks(m - 1, k, r - Binom(m - 1, k - 1))

RECURSIVE Fill(_, _)
Fill(hm, bm) ==
  IF hm = <<>> THEN <<>>
  ELSE IF Head(hm) THEN <<Hole>> \o Fill(Tail(hm), bm)
  ELSE <<IF Head(bm) THEN Down ELSE Up>> \o Fill(Tail(hm), Tail(bm))

Unrank(n, nh, nb, r) ==
  Fill(UnrankMarks(n, nh, r \div Binom(n - nh, nb)),
       UnrankMarks(n - nh, nb, r % Binom(n - nh, nb)))

(***************************************************************************)
(* The enumeration as a machine: the successor of a determinant in         *)
(* lexicographic order.  The rightmost species entry that can move right   *)
(* within its own combination moves, the entries after it pack behind it.  *)
(***************************************************************************)
FirstOcc(n, nh, nb) == [i \in 1 .. n |-> IF i <= nh THEN Hole ELSE IF i <= nh + nb THEN Down ELSE Up]

(* Successor of an increasing sequence c of k places out of 1..m, or <<>>. *)
NextCombo(c, m) ==
  LET k   == Len(c)
      mov == {i \in 1 .. k : c[i] < m - (k - i)}
  IN  IF mov = {} THEN <<>>
      ELSE LET p == Max(mov)
           IN  [i \in 1 .. k |-> IF i < p THEN c[i] ELSE c[p] + 1 + (i - p)]

HasSuccessor(occ) ==
  LET n  == Len(occ)
      hs == Ascending(SitesOf(occ, Hole))
      el == SelectSeq(occ, LAMBDA v : v # Hole)
      bs == Ascending({i \in 1 .. Len(el) : el[i] = Down})
  IN  NextCombo(bs, Len(el)) # <<>> \/ NextCombo([i \in 1 .. Len(hs) |-> hs[i] + 1], n) # <<>>

Successor(occ) ==
  LET n   == Len(occ)
      el  == SelectSeq(occ, LAMBDA v : v # Hole)
      bs  == Ascending({i \in 1 .. Len(el) : el[i] = Down})
      nbs == NextCombo(bs, Len(el))
      hs  == Ascending({i \in 1 .. n : occ[i] = Hole})
      nhs == NextCombo(hs, n)
      hm  == IF nbs # <<>> THEN [i \in 1 .. n |-> occ[i] = Hole]
             ELSE [i \in 1 .. n |-> \E j \in 1 .. Len(nhs) : nhs[j] = i]
      bm  == IF nbs # <<>> THEN [i \in 1 .. Len(el) |-> \E j \in 1 .. Len(nbs) : nbs[j] = i]
             ELSE [i \in 1 .. Len(el) |-> i <= Len(bs)]
  IN  Fill(hm, bm)
=============================================================================
