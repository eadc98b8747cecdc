-------------------------------- MODULE Eigen --------------------------------
(***************************************************************************)
(* Eigenpairs, selection and orthonormalization as step-by-step machines.  *)
(*                                                                         *)
(* A scenario of kind "select" is the run of a machine that owns a bag of  *)
(* [value, label] pairs and takes away, at every step, a pair of lowest    *)
(* value; the recorded answer lists the pairs in the order taken.          *)
(*                                                                         *)
(* A scenario of kind "ortho" carries integer columns v (independent),     *)
(* integer vectors w that span the orthogonal complement (in echelon form, *)
(* which certifies their independence), and the recorded columns q in      *)
(* units of 1e-6.  Column k must be a unit vector of the span of v, be     *)
(* orthogonal to v[1 .. k-1] and to q[1 .. k-1].                           *)
(*                                                                         *)
(* A scenario of kind "pairs" carries an integer matrix a (times sc), the  *)
(* complete list of its eigenvectors q (integers, norm^2 = nq) with their  *)
(* integer eigenvalues d in increasing order: the certificate is verified  *)
(* exactly, so that the spectrum is known without any numerical solver.    *)
(* The recorded answer gives values and vectors in units of 1e-6, and      *)
(* residual norms relative to the tolerance in thousandths.                *)
(*                                                                         *)
(* A scenario of kind "large" carries a partition of the indexes (idx) and *)
(* such a certificate for the matrix on each part; there are no couplings  *)
(* between parts, so the spectrum d is the union.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, step, bag
vars == <<k, step, bag>>
S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, step, clause, x>>))

Steps(s) == IF s.err # "" THEN 0 ELSE CASE s.kind = "select" -> Len(s.out)
                                        [] s.kind = "ortho"  -> Len(s.q)
                                        [] s.kind \in {"pairs", "large"} -> Len(s.val)
BagOf(s) == IF s.kind = "select" THEN {<<s.vals[i], i>> : i \in 1 .. Len(s.vals)} ELSE {}

Init == k \in 1 .. N /\ step = 0 /\ bag = BagOf(S)
Next == /\ step < Steps(S)
        /\ step' = step + 1 /\ k' = k
        /\ bag' = IF S.kind = "select" THEN bag \ {<<S.out[step + 1][1], S.out[step + 1][2]>>} ELSE bag
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE DotTo(_, _, _)
DotTo(u, v, n) == IF n = 0 THEN 0 ELSE DotTo(u, v, n - 1) + u[n] * v[n]
Dot(u, v) == DotTo(u, v, Len(u))
Size(u) == FoldLeft(LAMBDA a, x : a + Abs(x), 0, u)
Coarse(u) == [i \in 1 .. Len(u) |-> u[i] \div 100]     \* units of 1e-4
Min2(a, b) == IF a < b THEN a ELSE b

(* Unit norm and orthogonality of recorded vectors, to about 1e-3.         *)
One == 100000000
UnitVector(u)   == Abs(Dot(Coarse(u), Coarse(u)) - One) <= 300000
Orthogonal(u, v) == Abs(Dot(Coarse(u), Coarse(v))) <= 300000

---------------------------------------------------------------------------
(* Selection.  bag is what was left after the steps so far.                *)
LeftBefore == bag \cup {<<S.out[step][1], S.out[step][2]>>}
JudgeSelect ==
  IF step = 0
  THEN Len(S.out) = Min2(S.nb, Len(S.vals)) \/ Say("number of pairs", Len(S.out))
  ELSE LET p == <<S.out[step][1], S.out[step][2]>> IN
       /\ (p[2] \in 1 .. Len(S.vals) /\ S.vals[p[2]] = p[1]) \/ Say("a value without its own vector", p)
       /\ (\A j \in 1 .. step - 1 : S.out[j][2] # p[2]) \/ Say("a vector used twice", p)
       /\ (\A x \in bag : p[1] <= x[1]) \/ Say("not among the lowest that are left", p)

---------------------------------------------------------------------------
(* Orthonormalization.                                                     *)
Echelon(w) == \A i \in 1 .. Len(w) : \E p \in 1 .. Len(w[i]) :
                w[i][p] # 0 /\ \A j \in 1 .. Len(w) : j # i => w[j][p] = 0
CertificateOrtho ==
  /\ \A i \in 1 .. Len(S.w) : \A j \in 1 .. Len(S.v) : Dot(S.w[i], S.v[j]) = 0
  /\ Echelon(S.w)
  /\ Len(S.w) + Len(S.v) = S.dim
JudgeOrtho ==
  IF step = 0
  THEN /\ CertificateOrtho \/ Say("the recorder's certificate is wrong", <<>>)
       /\ Len(S.q) = Len(S.v) \/ Say("number of columns", Len(S.q))
  ELSE LET q == S.q[step] IN
       /\ UnitVector(q) \/ Say("norm", q)
       /\ \A j \in 1 .. step - 1 :
            /\ Orthogonal(q, S.q[j]) \/ Say("columns not orthogonal", <<j, q>>)
            /\ Abs(Dot(S.v[j], q)) <= 20 * Size(S.v[j]) \/ Say("not the span of the first columns", <<j, q>>)
       /\ \A j \in 1 .. Len(S.w) :
            Abs(Dot(S.w[j], q)) <= 20 * Size(S.w[j]) \/ Say("outside the span of the given columns", <<j, q>>)

---------------------------------------------------------------------------
(* Eigenpairs.                                                             *)
CertificatePairs ==
  /\ Len(S.q) = S.dim /\ Len(S.d) = S.dim
  /\ \A i \in 1 .. S.dim - 1 : S.d[i] <= S.d[i + 1]
  /\ \A i \in 1 .. S.dim : \A r \in 1 .. S.dim : Dot(S.a[r], S.q[i]) = S.sc * S.d[i] * S.q[i][r]
  /\ \A i \in 1 .. S.dim : \A j \in 1 .. i : Dot(S.q[i], S.q[j]) = IF i = j THEN S.nq * S.nq ELSE 0
(* A start may happen to have no part along the lowest states: the lowest  *)
(* values must be found from one of three random starts.                   *)
FoundLowest == \E t \in {S.val} \cup {S.tries[i] : i \in 1 .. Len(S.tries)} :
                 Len(t) = Len(S.val) /\ \A i \in 1 .. Len(t) : Abs(t[i] - 1000000 * S.d[i]) <= S.tol6 + 5
CertificateOf(b) ==
  LET n == Len(b.idx) IN
  /\ Len(b.q) = n /\ Len(b.d) = n
  /\ \A i \in 1 .. n : \A r \in 1 .. n : Dot(b.a[r], b.q[i]) = b.sc * b.d[i] * b.q[i][r]
  /\ \A i \in 1 .. n : \A j \in 1 .. i : Dot(b.q[i], b.q[j]) = IF i = j THEN b.nq * b.nq ELSE 0
CertificateLarge ==
  LET parts == 1 .. Len(S.blocks)
      place(b) == {b.idx[i] : i \in 1 .. Len(b.idx)}
      Times(v) == FoldLeft(LAMBDA acc, b : acc + Cardinality({i \in 1 .. Len(b.d) : b.d[i] = v}), 0, S.blocks)
  IN
  /\ UNION {place(S.blocks[p]) : p \in parts} = 1 .. S.dim
  /\ FoldLeft(LAMBDA acc, b : acc + Len(b.idx), 0, S.blocks) = S.dim
  /\ \A p \in parts : CertificateOf(S.blocks[p])
  /\ Len(S.d) = S.dim /\ \A i \in 1 .. S.dim - 1 : S.d[i] <= S.d[i + 1]
  /\ \A v \in {S.d[i] : i \in 1 .. S.dim} : Times(v) = Cardinality({i \in 1 .. S.dim : S.d[i] = v})
JudgeLarge ==
  IF step = 0
  THEN /\ CertificateLarge \/ Say("the recorder's certificate is wrong", <<>>)
       /\ (Len(S.val) = Min2(S.nb, S.dim) /\ Len(S.vec) = Len(S.val)) \/ Say("number of eigenpairs", <<Len(S.val), Len(S.vec)>>)
  ELSE LET x == S.vec[step]
           e == S.val[step]
           Near(v) == Abs(e - 1000000 * v) <= S.tol6 + 5
       IN
       /\ (step = 1 \/ S.val[step - 1] <= e) \/ Say("values not in increasing order", S.val)
       /\ S.res[step] <= 1010 \/ Say("residual above the tolerance", <<e, S.res[step]>>)
       /\ UnitVector(x) \/ Say("norm of the vector", x)
       /\ \A j \in 1 .. step - 1 : Orthogonal(x, S.vec[j]) \/ Say("vectors not orthogonal", j)
       /\ (\E i \in 1 .. S.dim : Near(S.d[i])) \/ Say("not an eigenvalue", e)
       /\ FoundLowest \/ Say("not the lowest eigenvalues, from three starts", <<S.val, S.tries>>)
       /\ \A p \in 1 .. Len(S.blocks) : LET b == S.blocks[p] IN
            \A i \in 1 .. Len(b.d) : ~Near(b.d[i]) =>
              Abs(Dot(b.q[i], [j \in 1 .. Len(b.idx) |-> x[b.idx[j]]])) <= b.nq * (2 * S.tol6 + 40) \/ Say("vector outside its eigenspace", <<e, b.d[i]>>)
JudgePairs ==
  IF step = 0
  THEN /\ CertificatePairs \/ Say("the recorder's certificate is wrong", <<>>)
       /\ (Len(S.val) = Min2(S.nb, S.dim) /\ Len(S.vec) = Len(S.val)) \/ Say("number of eigenpairs", <<Len(S.val), Len(S.vec)>>)
  ELSE LET x == S.vec[step]
           e == S.val[step]
           near == {i \in 1 .. S.dim : Abs(e - 1000000 * S.d[i]) <= S.tol6 + 5}
       IN
       /\ (step = 1 \/ S.val[step - 1] <= e) \/ Say("values not in increasing order", S.val)
       /\ S.res[step] <= 1010 \/ Say("residual above the tolerance", <<e, S.res[step]>>)
       /\ UnitVector(x) \/ Say("norm of the vector", x)
       /\ \A j \in 1 .. step - 1 : Orthogonal(x, S.vec[j]) \/ Say("vectors not orthogonal", j)
       /\ near # {} \/ Say("not an eigenvalue", e)
       /\ (S.lowest => FoundLowest) \/ Say("not the lowest eigenvalues, from three starts", <<S.val, S.tries, S.d>>)
       (* the vector has no part along eigenvectors of other eigenvalues *)
       /\ \A i \in (1 .. S.dim) \ near :
            Abs(Dot(S.q[i], x)) <= S.nq * (2 * S.tol6 + 40) \/ Say("vector outside its eigenspace", <<e, S.d[i]>>)

Judge ==
  IF S.err # "" THEN Say("raised", S.err)
  ELSE CASE S.kind = "select" -> JudgeSelect
         [] S.kind = "ortho"  -> JudgeOrtho
         [] S.kind = "pairs"  -> JudgePairs
         [] S.kind = "large"  -> JudgeLarge
=============================================================================
