------------------------------- MODULE SpinOps -------------------------------
(***************************************************************************)
(* Spin operators on occupation words.  S+ on site a with S- on site b     *)
(* raises a and lowers b; amplitudes are in quarters of the unit.          *)
(***************************************************************************)
EXTENDS Determinants

CanRaiseLower(occ, a, b) == occ[a + 1] = Down /\ occ[b + 1] = Up
RaiseLower(occ, a, b)    == [occ EXCEPT ![a + 1] = Up, ![b + 1] = Down]

SzSz4(occ, a, b) == occ[a + 1] * occ[b + 1]       \* 4 * sz(a) * sz(b)
TwiceSz(occ)     == CountOf(occ, Up) - CountOf(occ, Down)

AntiPairs(occ) == {p \in (1 .. Len(occ)) \X (1 .. Len(occ)) : p[1] < p[2] /\ occ[p[1]] * occ[p[2]] = -1}
ParaPairs(occ) == {p \in (1 .. Len(occ)) \X (1 .. Len(occ)) : p[1] < p[2] /\ occ[p[1]] * occ[p[2]] = 1}

(* S^2 = 3/4 per electron + 2 sum over pairs of S.S                        *)
S2Diag4(occ) == LET el == Cardinality({i \in 1 .. Len(occ) : occ[i] # Hole})
                    an == Cardinality(AntiPairs(occ))
                    pa == Cardinality(ParaPairs(occ))
                IN  3 * el + 2 * (pa - an)
S2Targets(occ) == {Swap(occ, p[1] - 1, p[2] - 1) : p \in AntiPairs(occ)}
S2Row4(occ) ==
  (IF S2Diag4(occ) = 0 THEN {} ELSE {<<Rank(occ), S2Diag4(occ)>>}) \cup {<<Rank(g), 4>> : g \in S2Targets(occ)}

(* Components of images of a vector v (numbers by rank), in quarters.      *)
SumBy(S, Op(_)) == FoldSet(LAMBDA x, acc : acc + Op(x), 0, S)
S2At4(v, occ) == S2Diag4(occ) * v[Rank(occ) + 1] + SumBy(S2Targets(occ), LAMBDA g : 4 * v[Rank(g) + 1])
RaiseLowerAt(v, occ, a, b) ==      \* the component on occ comes from lowering a and raising b in occ
  IF CanRaiseLower(occ, b, a) THEN v[Rank(RaiseLower(occ, b, a)) + 1] ELSE 0

(* Total S+ : every spin down can be raised.                               *)
Raised(occ) == {[occ EXCEPT ![i] = Up] : i \in {j \in 1 .. Len(occ) : occ[j] = Down}}
Lowered(occ) == {[occ EXCEPT ![i] = Down] : i \in {j \in 1 .. Len(occ) : occ[j] = Up}}
=============================================================================
