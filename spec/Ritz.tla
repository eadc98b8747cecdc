-------------------------------- MODULE Ritz ---------------------------------
(***************************************************************************)
(* The diagonalizer as a history of approximations.                        *)
(*                                                                         *)
(* Whatever the number of steps it is given and however its search space   *)
(* is confined, the diagonalizer answers with the Ritz pairs of some       *)
(* search space: orthonormal vectors in which the matrix is diagonal, in   *)
(* increasing order.  By the minimax principle no value lies below the     *)
(* exact eigenvalue of the same rank; and as every search space contains   *)
(* the previous Ritz vectors, giving more steps from the same start never  *)
(* raises a value, until the residuals are within the tolerance, after     *)
(* which the answer stays.                                                 *)
(*                                                                         *)
(* A scenario carries the matrix a (integers, times sc) with the complete  *)
(* list of its integer eigenvectors q (norm nq) and eigenvalues d, checked *)
(* exactly here, and the runs: one answer for each number of steps, in     *)
(* increasing order, from the same start.  The machine takes the runs one  *)
(* by one and keeps the lowest value reached so far for every rank.        *)
(* Values, vectors and Rayleigh matrices are in units of 1e-6, residual    *)
(* norms relative to the tolerance in thousandths.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, i, bound
vars == <<k, i, bound>>
S == Scn[k]
R == S.runs[i]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, i, clause, x>>))

Abs(x) == IF x < 0 THEN -x ELSE x
Smaller(a, b) == IF a < b THEN a ELSE b
Space == IF S.dmax = 0 THEN S.dim ELSE S.dmax
Wanted == Smaller(S.nb, Smaller(Space, S.dim))

Converged(r) == \A c \in 1 .. Len(r.res) : r.res[c] <= 990

(* bound: the lowest value so far of each rank.                            *)
Init == k \in 1 .. N /\ i = 0 /\ bound = <<>>
Next ==
  /\ S.err = "" /\ i < Len(S.runs)
  /\ i' = i + 1 /\ k' = k
  /\ LET r == S.runs[i + 1] IN
     bound' = IF i = 0 THEN r.val
              ELSE [c \in 1 .. Smaller(Len(bound), Len(r.val)) |-> Smaller(bound[c], r.val[c])]
Spec == Init /\ [][Next]_vars

RECURSIVE DotTo(_, _, _)
DotTo(u, v, n) == IF n = 0 THEN 0 ELSE DotTo(u, v, n - 1) + u[n] * v[n]
Dot(u, v) == DotTo(u, v, Len(u))
Coarse(u) == [x \in 1 .. Len(u) |-> u[x] \div 100]
One == 100000000

Certificate ==
  /\ Len(S.q) = S.dim /\ Len(S.d) = S.dim
  /\ \A x \in 1 .. S.dim - 1 : S.d[x] <= S.d[x + 1]
  /\ \A x \in 1 .. S.dim : \A r \in 1 .. S.dim : Dot(S.a[r], S.q[x]) = S.sc * S.d[x] * S.q[x][r]
  /\ \A x \in 1 .. S.dim : \A y \in 1 .. x : Dot(S.q[x], S.q[y]) = IF x = y THEN S.nq * S.nq ELSE 0

Slack == 5
JudgeRun ==
  /\ (Len(R.val) = Wanted /\ Len(R.vec) = Wanted) \/ Say("number of pairs", <<R.stp, Len(R.val), Wanted>>)
  /\ \A c \in 1 .. Len(R.val) :
       /\ (c = 1 \/ R.val[c - 1] <= R.val[c]) \/ Say("values not in increasing order", <<R.stp, R.val>>)
       /\ (R.val[c] >= 1000000 * S.d[c] - Slack) \/ Say("below the exact eigenvalue of this rank", <<R.stp, c, R.val[c], S.d[c]>>)
       /\ (c > Len(bound) \/ R.val[c] <= bound[c] + Slack) \/ Say("more steps gave a higher value", <<R.stp, c, R.val[c], bound[c]>>)
       /\ (Abs(Dot(Coarse(R.vec[c]), Coarse(R.vec[c])) - One) <= 300000) \/ Say("norm", <<R.stp, c>>)
       /\ \A e \in 1 .. c - 1 :
            (Abs(Dot(Coarse(R.vec[c]), Coarse(R.vec[e]))) <= 300000) \/ Say("vectors not orthogonal", <<R.stp, c, e>>)
       /\ \A e \in 1 .. c :
            (Abs(R.ray[c][e] - (IF c = e THEN R.val[c] ELSE 0)) <= Slack) \/ Say("not the expectations on the vectors", <<R.stp, c, e, R.ray[c][e]>>)
(* A run after a converged one repeats it: its value is not lower either.  *)
Kept ==
  i < 2 \/ LET p == S.runs[i - 1] IN
    ~Converged(p) \/ \A c \in 1 .. Smaller(Len(p.val), Len(R.val)) :
      (Abs(p.val[c] - R.val[c]) <= 1) \/ Say("changed after convergence", <<R.stp, c, p.val[c], R.val[c]>>)
Judge ==
  IF S.err # "" THEN Say("raised", S.err)
  ELSE IF i = 0 THEN Certificate \/ Say("the recorder's certificate is wrong", <<>>)
  ELSE JudgeRun /\ Kept
(* What the minimax principle says of the bounds kept by the machine.      *)
BoundsSound == \A c \in 1 .. Len(bound) - 1 : bound[c] <= bound[c + 1] + Slack
=============================================================================
