------------------------------ MODULE Deflate ------------------------------
(***************************************************************************)
(* What is left when vectors that are already found are set aside.         *)
(*                                                                         *)
(* Kind "project": an integer symmetric matrix a, integer orthogonal       *)
(* vectors f that are set aside, and integer orthogonal vectors w of the   *)
(* space left, chosen so that a couples none of them to another: the       *)
(* matrix confined to that space has the values d, verified exactly.  The  *)
(* recorded answer (matrix and its values, units of 1e-6) must be          *)
(* symmetric, of the dimension left, with these values.                    *)
(*                                                                         *)
(* Kind "correct": the corrections x, in integer coordinates of an         *)
(* orthonormal frame whose first m axes span the search space, are taken   *)
(* one by one; one that lies in what is spanned already adds nothing, the  *)
(* others add a direction.  The state is the list of the corrections that  *)
(* added one.  dep certifies a correction that adds nothing, w that those  *)
(* which do are independent.  The answer q (same frame, units of 1e-6)     *)
(* must have one column for each of these: a unit vector off the search    *)
(* space and off the columns before it, in the span of those so far.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, step, added
vars == <<k, step, added>>
S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, step, clause, x>>))

Steps(s) == IF s.err # "" THEN 0 ELSE IF s.kind = "project" THEN Len(s.d) ELSE s.nu
Adds(s, j) == \A i \in 1 .. Len(s.dep) : s.dep[i].j # j

Init == k \in 1 .. N /\ step = 0 /\ added = <<>>
Next == /\ step < Steps(S)
        /\ step' = step + 1 /\ k' = k
        /\ added' = IF S.kind = "correct" /\ Adds(S, step + 1) THEN Append(added, step + 1) ELSE added
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE DotTo(_, _, _)
DotTo(u, v, n) == IF n = 0 THEN 0 ELSE DotTo(u, v, n - 1) + u[n] * v[n]
Dot(u, v) == DotTo(u, v, Len(u))
Size(u) == FoldLeft(LAMBDA a, x : a + Abs(x), 0, u)
Coarse(u) == [i \in 1 .. Len(u) |-> u[i] \div 100]     \* units of 1e-4
One == 100000000

---------------------------------------------------------------------------
Image(u) == [i \in 1 .. S.dim |-> Dot(S.a[i], u)]
CertificateProject ==
  /\ Len(S.f) + Len(S.w) = S.dim /\ Len(S.d) = Len(S.w)
  /\ \A i \in 1 .. Len(S.d) - 1 : S.d[i] <= S.d[i + 1]
  /\ \A i, j \in 1 .. Len(S.f) : (Dot(S.f[i], S.f[j]) = 0) = (i # j)
  /\ \A i \in 1 .. Len(S.w) : \A j \in 1 .. Len(S.f) : Dot(S.w[i], S.f[j]) = 0
  /\ \A i, j \in 1 .. Len(S.w) : (Dot(S.w[i], S.w[j]) = 0) = (i # j)
  /\ \A i, j \in 1 .. Len(S.w) : Dot(S.w[i], Image(S.w[j])) = IF i = j THEN S.d[i] * Dot(S.w[i], S.w[i]) ELSE 0
JudgeProject ==
  LET left == Len(S.w) IN
  IF step = 0
  THEN /\ CertificateProject \/ Say("the recorder's certificate is wrong", <<>>)
       /\ (Len(S.m) = left /\ \A i \in 1 .. Len(S.m) : Len(S.m[i]) = left) \/ Say("dimension of what is left", Len(S.m))
       /\ (\A i, j \in 1 .. Len(S.m) : Abs(S.m[i][j] - S.m[j][i]) <= 5) \/ Say("not symmetric", S.m)
  ELSE Abs(S.val[step] - 1000000 * S.d[step]) <= 50 \/ Say("value", <<S.val[step], S.d[step]>>)

---------------------------------------------------------------------------
Off(u) == SubSeq(u, S.m + 1, S.dim)                     \* the part off the search space
In(u)  == SubSeq(u, 1, S.m)
Adding == SelectSeq([j \in 1 .. S.nu |-> j], LAMBDA j : Adds(S, j))
Echelon(w) == \A i \in 1 .. Len(w) : \E p \in 1 .. Len(w[i]) :
                w[i][p] # 0 /\ \A j \in 1 .. Len(w) : j # i => w[j][p] = 0
Sum(u, c, v) == [i \in 1 .. Len(u) |-> u[i] + c * v[i]]
CertificateCorrect ==
  /\ Echelon(S.w) /\ Len(S.w) + Len(Adding) = S.dim - S.m
  /\ \A i \in 1 .. Len(S.w) : \A j \in 1 .. Len(Adding) : Dot(S.w[i], Off(S.x[Adding[j]])) = 0
  /\ \A e \in 1 .. Len(S.dep) :
       LET before == SelectSeq(Adding, LAMBDA j : j < S.dep[e].j)
           zero == [i \in 1 .. S.dim - S.m |-> 0]
           Acc(n) == FoldLeft(LAMBDA a, i : Sum(a, S.dep[e].c[i], Off(S.x[before[i]])), zero, [i \in 1 .. n |-> i])
       IN /\ S.dep[e].c0 # 0 /\ Len(S.dep[e].c) = Len(before)
          /\ Acc(Len(before)) = [i \in 1 .. S.dim - S.m |-> S.dep[e].c0 * Off(S.x[S.dep[e].j])[i]]
JudgeCorrect ==
  IF step = 0
  THEN /\ CertificateCorrect \/ Say("the recorder's certificate is wrong", <<>>)
       /\ Len(S.q) = Len(Adding) \/ Say("number of meaningful corrections", <<Len(S.q), Len(Adding)>>)
  ELSE (Adds(S, step) /\ Len(added) <= Len(S.q)) =>
       LET c == Len(added)
           q == S.q[c] IN
       /\ \A i \in 1 .. S.m : Abs(q[i]) <= 20 \/ Say("not orthogonal to the search space", In(q))
       /\ Abs(Dot(Coarse(Off(q)), Coarse(Off(q))) - One) <= 300000 \/ Say("norm", q)
       /\ \A j \in 1 .. c - 1 :
            /\ Abs(Dot(Coarse(q), Coarse(S.q[j]))) <= 300000 \/ Say("corrections not orthogonal", <<j, q>>)
            /\ Abs(Dot(Off(S.x[added[j]]), Off(q))) <= 20 * Size(S.x[added[j]]) \/ Say("not the span of the first corrections", <<j, q>>)
       /\ \A j \in 1 .. Len(S.w) : Abs(Dot(S.w[j], Off(q))) <= 20 * Size(S.w[j]) \/ Say("outside the span of the corrections", <<j, q>>)

Judge == IF S.err # "" THEN Say("raised", S.err) ELSE IF S.kind = "project" THEN JudgeProject ELSE JudgeCorrect
=============================================================================
