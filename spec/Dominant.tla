------------------------------ MODULE Dominant ------------------------------
(***************************************************************************)
(* The machine that lists dominant states owns the states not yet listed   *)
(* and takes away, at every step, one with a largest absolute coefficient. *)
(* out : <<index or -1, coefficient, state>> in the order listed; list is  *)
(* the caller's own list of states when it is not the basis order.         *)
(***************************************************************************)
EXTENDS Determinants, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, step, left
vars == <<k, step, left>>
S == Scn[k]
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, step, clause, x, S.v>>))
Abs(x) == IF x < 0 THEN -x ELSE x

Number(s, det) ==
  IF "list" \in DOMAIN s
  THEN LET m == {i \in 1 .. Len(s.list) : s.list[i] = det} IN IF m = {} THEN -1 ELSE Min(m) - 1
  ELSE IF IsDet(det, s.n) /\ IsCanonical(det, s.nh, s.nb) THEN Rank(ToOcc(det, s.nh, s.nb)) ELSE -1
StateIndex(s, j) == Number(s, s.out[j][3])

Init == k \in 1 .. N /\ step = 0 /\ left = 0 .. Len(S.v) - 1
Next == /\ S.err = "" /\ step < Len(S.out)
        /\ step' = step + 1 /\ k' = k
        /\ left' = left \ {StateIndex(S, step + 1)}
Spec == Init /\ [][Next]_vars

Wanted == IF S.nd < Len(S.v) THEN S.nd ELSE Len(S.v)
Judge ==
  IF S.err # "" THEN Say("raised", S.err)
  ELSE IF step = 0 THEN Len(S.out) = Wanted \/ Say("number of states", Len(S.out))
  ELSE LET x == S.out[step]
           i == StateIndex(S, step)
       IN  /\ i >= 0 \/ Say("not a state of the basis", x)
           /\ i >= 0 => /\ x[2] = S.v[i + 1] \/ Say("coefficient of another state", x)
                        /\ x[1] \in {-1, i} \/ Say("index of another state", x)
                        /\ (\A j \in 1 .. step - 1 : StateIndex(S, j) # i) \/ Say("listed twice", x)
                        /\ (\A j \in left : Abs(S.v[j + 1]) <= Abs(S.v[i + 1])) \/ Say("a larger coefficient was left", x)
=============================================================================
