------------------------------- MODULE Ratio -------------------------------
(***************************************************************************)
(* Judges the pictures of a spectrum against the ratio t/J.                *)
(*                                                                         *)
(* The machine walks along the axis of the two pictures ("plain": hopping  *)
(* and exchange; "full": every term).  At each ratio x the specification   *)
(* says which computation must have been asked for: the couplings of the   *)
(* caller, the exchange being |t|/x and the dressed exchanges and singlet  *)
(* displacements keeping their proportion to it.  The recorder writes what *)
(* was asked in these terms (t, J x, Jpar J0/J, ...), so that they must be *)
(* the same at every ratio, and the energies that were answered.  The      *)
(* curves above x must carry exactly these energies; a curve wears the     *)
(* multiplicity and the degeneracy of the energy it starts with.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, i
vars == <<k, i>>
S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, clause, x>>))

Points(kk) == IF Scn[kk].err # "" THEN 0 ELSE Len(Scn[kk].axis)
Init == k \in 1 .. N /\ i = 0
Next == i < Points(k) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)

(* What has to be asked for at any ratio, in the terms of the recorder.    *)
Asked == [S.prm EXCEPT !.J = Abs(S.prm.t)]
Terms(p) == IF p.what = "plain" THEN {"t", "z", "ij"} ELSE {"t", "z", "ij", "SD", "tN", "V"}

Column(p, j) == [c \in 1 .. Len(p.curves) |-> p.curves[c].y[j]]

JudgePoint(p) ==
  /\ p.asked[i] = Asked \/ Say("couplings asked for", <<p.what, S.axis[i], p.asked[i], Asked>>)
  /\ Sorted(Column(p, i)) = Sorted(p.answer[i]) \/ Say("energies", <<p.what, S.axis[i], Column(p, i), p.answer[i]>>)

(* The first energies with their multiplicity (2 or 4) and degeneracy.     *)
Styles(p) == [c \in 1 .. Len(p.answer[1]) |->
                <<p.answer[1][c], p.mult[c], Cardinality({d \in 1 .. Len(p.answer[1]) : p.answer[1][d] = p.answer[1][c]})>>]
Worn(p) == [c \in 1 .. Len(p.curves) |-> <<p.curves[c].y[1], p.curves[c].mult, p.curves[c].deg>>]
Times(q, x) == Cardinality({c \in 1 .. Len(q) : q[c] = x})

JudgePicture(p) ==
  /\ Len(p.curves) = S.nbval \/ Say("curves", <<p.what, Len(p.curves)>>)
  /\ {p.terms[j] : j \in 1 .. Len(p.terms)} = Terms(p) \/ Say("selection", p.terms)
  /\ p.same \/ Say("another lattice, content or diagonalization", p.what)
  /\ \A c \in 1 .. Len(p.curves) : Len(p.curves[c].y) = Len(S.axis) \/ Say("length of a curve", c)
  /\ \A c \in 1 .. Len(p.answer[1]) : Times(Worn(p), Styles(p)[c]) = Times(Styles(p), Styles(p)[c]) \/ Say("styles", <<Worn(p), Styles(p)>>)

Judge ==
  CASE S.err # "" -> Say("raised", S.err)
    [] S.err = "" /\ i = 0 ->
         /\ ({S.pics[p].what : p \in 1 .. Len(S.pics)} = {"plain", "full"} /\ Len(S.pics) = 2) \/ Say("pictures", Len(S.pics))
         /\ S.kept \/ Say("the caller's couplings were changed", "")
         /\ \A j \in 2 .. Len(S.axis) : S.axis[j - 1] < S.axis[j] \/ Say("axis", j)
         /\ \A p \in 1 .. Len(S.pics) : JudgePicture(S.pics[p])
    [] OTHER -> \A p \in 1 .. Len(S.pics) : JudgePoint(S.pics[p])
=============================================================================
