-------------------------------- MODULE Spin --------------------------------
(***************************************************************************)
(* Judges recorded spin operators, state by state, along the lexicographic *)
(* enumeration of the states of each content.                              *)
(*   pm   : images of the state under S+(a) S-(b), as [a, b, det or []]    *)
(*   zz   : [a, b, 4 * value] of Sz(a) Sz(b) on the state                  *)
(*   s2   : rows of the recorded S^2                                       *)
(*   vecs : a vector v with recorded images (one value per state):         *)
(*          pm [a, b, image], zz [a, b, 4 * image], s2 (4 * image),        *)
(*          sz (2 * value, 2 * image)                                      *)
(*   spin : a vector v with the reported expectation and spin number,      *)
(*          judged at the end of the enumeration, which accumulates        *)
(*          num = 4 <v|S^2|v> and den = <v|v>                              *)
(***************************************************************************)
EXTENDS SpinOps, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, occ, num, den
vars == <<k, occ, num, den>>
S == Scn[k]
Has(f) == f \in DOMAIN S
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, Rank(occ), clause, ToDet(occ), x>>))

Acc(kk, o) == IF "spin" \in DOMAIN Scn[kk]
              THEN <<Scn[kk].spin.v[Rank(o) + 1] * S2At4(Scn[kk].spin.v, o), Scn[kk].spin.v[Rank(o) + 1] * Scn[kk].spin.v[Rank(o) + 1]>>
              ELSE <<0, 0>>

Init == /\ k \in 1 .. N
        /\ occ = FirstOcc(Scn[k].n, Scn[k].nh, Scn[k].nb)
        /\ num = Acc(k, occ)[1] /\ den = Acc(k, occ)[2]
Next == /\ HasSuccessor(occ) /\ occ' = Successor(occ) /\ k' = k
        /\ num' = num + Acc(k, occ')[1] /\ den' = den + Acc(k, occ')[2]
Spec == Init /\ [][Next]_vars

Here == Rank(occ) + 1
PmWant(a, b) == IF CanRaiseLower(occ, a, b) THEN ToDet(RaiseLower(occ, a, b)) ELSE <<>>

JudgeVec(x) ==
  LET v == x.v IN
  /\ \A j \in 1 .. Len(x.pm) :
       x.pm[j][3][Here] = RaiseLowerAt(v, occ, x.pm[j][1], x.pm[j][2])
       \/ Say("S+S- on a vector", <<x.pm[j][1], x.pm[j][2], x.pm[j][3][Here]>>)
  /\ \A j \in 1 .. Len(x.zz) :
       x.zz[j][3][Here] = SzSz4(occ, x.zz[j][1], x.zz[j][2]) * v[Here]
       \/ Say("SzSz on a vector", <<x.zz[j][1], x.zz[j][2], x.zz[j][3][Here]>>)
  /\ Len(x.s2) = 0 \/ x.s2[Here] = S2At4(v, occ) \/ Say("S^2 on a vector", <<x.s2[Here], S2At4(v, occ)>>)
  /\ (x.sz[1] = TwiceSz(occ) /\ x.sz[2][Here] = TwiceSz(occ) * v[Here]) \/ Say("Sz on a vector", x.sz[1])

(* The spin number is the half integer s = k2 / 2 nearest to the positive  *)
(* root of s (s + 1) = num / (4 den):                                      *)
(*   (2 k2 + 1)^2 <= 4 (4 <S2> + 1) <= (2 k2 + 3)^2                         *)
NearestHalf(k2, nn, dd) ==
  /\ k2 >= 0
  /\ k2 = 0 \/ (2 * k2 + 1) * (2 * k2 + 1) * dd <= 4 * (nn + dd)
  /\ 4 * (nn + dd) <= (2 * k2 + 3) * (2 * k2 + 3) * dd

NameOf(k2) == CASE k2 = 0 -> "singlet" [] k2 = 1 -> "doublet" [] k2 = 2 -> "triplet" [] k2 = 3 -> "quartet" [] k2 = 4 -> "quintet" [] k2 = -1 -> "-"
                [] OTHER -> "multiplet"

JudgeSpin ==
  LET x == S.spin IN
  /\ (x.exp.err = "" /\ x.exp.val = num) \/ Say("expectation of S^2", <<x.exp, num, den>>)
  /\ \A j \in 1 .. Len(x.k2) :
       (x.k2[j].err = "" /\ (IF den = 0 THEN x.k2[j].val = 0 ELSE NearestHalf(x.k2[j].val, num, den)))
       \/ Say("spin number", <<x.k2[j], num, den>>)
  /\ \/ /\ x.several.err = "" /\ Len(x.several.k2) = 3 /\ Len(x.several.names) = 3
        /\ \A j \in 1 .. 3 : /\ IF den = 0 THEN x.several.k2[j] = 0 ELSE NearestHalf(x.several.k2[j], num, den)
                             /\ x.several.names[j] = NameOf(x.several.k2[j])
     \/ Say("several spin numbers at once", <<x.several, num, den>>)
  /\ x.exact = -1 \/ den = 0 \/ num = x.exact * (x.exact + 2) * den \/ Say("the recorder's eigenvector is none", x.exact)

Judge ==
  IF S.err # "" THEN HasSuccessor(occ) \/ Say("raised", S.err)
  ELSE
  /\ Has("pm") => \A j \in 1 .. Len(S.pm[Here]) :
       LET r == S.pm[Here][j] IN r[3] = PmWant(r[1], r[2]) \/ Say("S+S- on a state", r)
  /\ Has("zz") => \A j \in 1 .. Len(S.zz[Here]) :
       LET r == S.zz[Here][j] IN r[3] = SzSz4(occ, r[1], r[2]) \/ Say("SzSz on a state", r)
  /\ Has("s2") => {S.s2[Here][j] : j \in 1 .. Len(S.s2[Here])} = S2Row4(occ) \/ Say("row of S^2", S.s2[Here])
  /\ Has("vecs") => \A j \in 1 .. Len(S.vecs) : JudgeVec(S.vecs[j])
  /\ (Has("spin") /\ ~HasSuccessor(occ)) => JudgeSpin
  /\ Has("names") => HasSuccessor(occ) \/ \A j \in 1 .. Len(S.names) :
       S.names[j][2] = NameOf(S.names[j][1]) \/ Say("multiplicity", S.names[j])
=============================================================================
