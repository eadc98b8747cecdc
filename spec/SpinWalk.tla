------------------------------ MODULE SpinWalk ------------------------------
(***************************************************************************)
(* Validates walks of the implementation by S+(a) S-(b) through the states *)
(* of lattices that may be too large to enumerate.  Each step records the  *)
(* images of a state (pm) and the products of its site spins (zz); the     *)
(* walk goes on from one of the images the code returned, and every step   *)
(* must be a transition of the specification.                              *)
(***************************************************************************)
EXTENDS SpinOps, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, i
vars == <<k, i>>
Init == k \in 1 .. N /\ i = 0
Next == i < Len(Scn[k].steps) /\ i' = i + 1 /\ k' = k
Spec == Init /\ [][Next]_vars

St  == Scn[k].steps[i]
occ == St.occ
Say(clause, x) == PrintT("FAIL" \o ToString(<<Scn[k].id, i, clause, ToDet(occ), x>>))

Image(a, b) == IF CanRaiseLower(occ, a, b) THEN ToDet(RaiseLower(occ, a, b)) ELSE <<>>
Steps(o) == {RaiseLower(o, p[1] - 1, p[2] - 1) :
               p \in {q \in (1 .. Len(o)) \X (1 .. Len(o)) : o[q[1]] = Down /\ o[q[2]] = Up}}

Judge ==
  i = 0 \/
  /\ \A j \in 1 .. Len(St.pm) :
       LET x == St.pm[j] IN
       (x[3].err = "" /\ x[3].val = Image(x[1], x[2])) \/ Say("S+S- on a state", x)
  /\ \A j \in 1 .. Len(St.zz) :
       LET x == St.zz[j] IN
       (x[3].err = "" /\ x[3].val = SzSz4(occ, x[1], x[2])) \/ Say("SzSz on a state", x)
  /\ St.same \/ Say("the state handed in was changed", "")
  /\ i = 1 \/ occ \in Steps(Scn[k].steps[i - 1].occ) \/ Say("not a transition of the specification", Scn[k].steps[i - 1].occ)
=============================================================================
