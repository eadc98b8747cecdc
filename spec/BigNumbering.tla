---------------------------- MODULE BigNumbering ----------------------------
(***************************************************************************)
(* Numbers of states of lattices far too large to enumerate, whose numbers *)
(* exceed machine integers and the integers a float can hold.              *)
(***************************************************************************)
EXTENDS Determinants, BigNum, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)
VARIABLES k, phase
vars == <<k, phase>>
Init == k \in 1 .. N /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ k' = k
Spec == Init /\ [][Next]_vars

(* Up to three places, beyond the rows of the triangle.                     *)
FewBinom(n, j) ==
  CASE j = 0 -> <<1>> [] j = 1 -> BigOf(n) [] j = 2 -> BigOf((n * (n - 1)) \div 2)
    [] j = 3 -> BigOf((n * (n - 1) * (n - 2)) \div 6)
BigBinom(n, j) ==
  IF j < 0 \/ n < 0 \/ j > n THEN <<>>
  ELSE IF n >= BigRows THEN FewBinom(n, j) ELSE BigPascal[n + 1][j + 1]
BigDim(n, nh, nb) == BigMul(BigBinom(n, nh), BigBinom(n - nh, nb))

RECURSIVE BigRankMarks(_, _, _)
BigRankMarks(marks, i, j) ==
  IF j = 0 THEN <<>>
  ELSE IF marks[i] THEN BigRankMarks(marks, i + 1, j - 1)
  ELSE BigAdd(BigBinom(Len(marks) - i, j - 1), BigRankMarks(marks, i + 1, j))
BigRank(occ) ==
  LET n  == Len(occ)
      el == TLCEval(SelectSeq(occ, LAMBDA v : v # Hole))
      nb == Cardinality({i \in 1 .. Len(el) : el[i] = Down})
  IN  BigAdd(BigMul(BigRankMarks(TLCEval([i \in 1 .. n |-> occ[i] = Hole]), 1, n - Len(el)), BigBinom(Len(el), nb)),
             BigRankMarks(TLCEval([i \in 1 .. Len(el) |-> el[i] = Down]), 1, nb))

S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, 0, clause, S, x>>))
Has(f) == f \in DOMAIN S
Same(f, clause, want) ==
  \/ S[f].err = "" /\ S[f].val = want
  \/ Say(clause, <<S[f], want>>)

(* The state with a number: the canonical list with that number.           *)
BackOk ==
  \/ /\ S.back.err = ""
     /\ IsDet(S.back.val, S.n) /\ IsCanonical(S.back.val, S.nh, S.nb)
     /\ BigRank(ToOcc(S.back.val, S.nh, S.nb)) = S.ind
  \/ Say("state with this number", S.back)

Judge ==
  \/ phase = 0
  \/ /\ Has("num")  => Same("num", "number of the state", BigRank(S.occ))
     /\ Has("hash") => Same("hash", "number of the ordered state", BigRank(S.occ))
     /\ Has("back") => BackOk
     /\ Has("dim")  => Same("dim", "dimension", BigDim(S.n, S.nh, S.nb))
     /\ Has("conf") => Same("conf", "announced quantities",
          <<<<S.n, S.nh, S.nb, S.n - S.nh - S.nb, S.n - S.nh - 2 * S.nb, S.nh>>, BigDim(S.n, S.nh, S.nb)>>)
     /\ Has("occ")  => BigLess(BigRank(S.occ), BigDim(S.n, S.nh, S.nb)) \/ Say("specification numbering", 0)

(* The large numbers agree with the 32-bit ones of Determinants.           *)
SpecSound ==
  (k = 1 /\ phase = 1) =>
    /\ \A m \in 0 .. 28 : \A j \in 0 .. m : BigBinom(m, j) = BigOf(Binom(m, j))
    /\ \A m \in 3 .. 100 : \A j \in 0 .. 3 : FewBinom(m, j) = BigBinom(m, j)
    /\ \A a, b \in {0, 1, 7, 999, 1000, 1001, 31999, 40000} :
         /\ BigMul(BigOf(a), BigOf(b)) = BigOf(a * b)
         /\ BigAdd(BigOf(a), BigOf(b)) = BigOf(a + b)
         /\ BigLess(BigOf(a), BigOf(b)) = (a < b)
=============================================================================
