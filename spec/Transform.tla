----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* A state of a block under a history of transformations, each applied to  *)
(* what the previous one returned:                                         *)
(*   flip    reverse every spin (also returns the new configuration)       *)
(*   rot     quarter turns clockwise                                       *)
(*   order   the listing is scrambled within each species, then reordered  *)
(*   extend  another block, in state "word", is juxtaposed                 *)
(*   look    the content of each site is read                              *)
(***************************************************************************)
EXTENDS Geometry, Determinants, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, step, occ
vars == <<k, step, occ>>
S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, step, clause, ToDet(occ), x>>))

Quarter == <<"id", "rot90", "rot180", "rot270">>
SiteAt(p) == p[1] + S.w * p[2]
Turned(o, m) ==
  Permute(o, [i \in 1 .. S.w * S.h |->
                SiteAt(MapPoint(Quarter[(m % 4) + 1], RectXY(S.w, i - 1), 0, S.w - 1, 0, S.h - 1))])
Apply(o, x) == CASE x.op = "flip"   -> FlipAll(o)
                 [] x.op = "rot"    -> Turned(o, x.m)
                 [] x.op = "order"  -> o
                 [] x.op = "extend" -> o \o x.word
                 [] x.op = "look"   -> o

Init == k \in 1 .. N /\ step = 0 /\ occ = S.word
Next == /\ step < Len(S.steps)
        /\ step' = step + 1 /\ k' = k
        /\ occ' = Apply(occ, S.steps[step'])
Spec == Init /\ [][Next]_vars

Holes(o) == CountOf(o, Hole)
Downs(o) == CountOf(o, Down)
Ups(o)   == CountOf(o, Up)

(* Four quarter turns and two reversals are the identity.                  *)
SpecSound == step = 0 => /\ FlipAll(FlipAll(occ)) = occ
                         /\ (S.kind = "periodic" /\ S.w = S.h) => Turned(Turned(Turned(Turned(occ, 1), 1), 1), 1) = occ
                         /\ S.kind = "periodic" => Turned(Turned(occ, 2), 2) = occ

Judge ==
  IF step = 0 THEN TRUE
  ELSE LET x == S.steps[step] IN
  IF x.err # "" THEN Say("raised in " \o x.op, x.err)
  ELSE CASE x.op = "flip" -> /\ x.det = ToDet(occ) \/ Say("reversed state", x)
                             /\ x.conf = <<Len(occ), Holes(occ), Downs(occ), Ups(occ), S.kind, S.nb3[1], S.nb3[2], S.nb3[3]>>
                                \/ Say("configuration of the reversed state", x)
                             /\ x.allowed = S.allowed \/ Say("allowed sites of the reversed state", x)
         [] x.op = "rot"  -> x.det = ToDet(occ) \/ Say("rotated state", x)
         [] x.op = "order" -> x.det = ToDet(occ) \/ Say("reordered state", x)
         [] x.op = "extend" -> (IsDet(x.det, Len(occ)) /\ ToOcc(x.det, Holes(occ), Downs(occ)) = occ) \/ Say("extended state", x)
         [] x.op = "look" -> x.spins = occ \/ Say("content of the sites", x)
=============================================================================
