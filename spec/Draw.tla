-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* Drawings, recorded as tokens <<row, column, content>> in reading order. *)
(* A drawing is faithful when its tokens are the sites of the lattice: the *)
(* tokens of a row are the sites of one ordinate, northern rows first, and *)
(* the tokens of a column are the sites of one abscissa, western columns   *)
(* first.                                                                  *)
(*   periodic, peripheral : one lattice                                    *)
(*   pair                 : a w x h block followed eastwards by a w2 x h   *)
(*                          block (word is the first then the second)      *)
(* The links drawn (pairs of tokens) are the bonds inside each part: the   *)
(* rectangle, the ring, each of the two blocks.                            *)
(***************************************************************************)
EXTENDS Geometry, Determinants, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)

VARIABLES k, item
vars == <<k, item>>
S == Scn[k]
Init == k \in 1 .. N /\ item = 0
Next == item < Len(S.items) /\ item' = item + 1 /\ k' = k
Spec == Init /\ [][Next]_vars
Say(clause, x) == PrintT("FAIL" \o ToString(<<S.id, item, clause, x>>))

Points == CASE S.kind \in {"periodic", "peripheral"} -> Lattice(S.kind, S.w, S.h).xy
            [] S.kind = "pair" ->
                 [i \in 1 .. (S.w + S.w2) * S.h |->
                    IF i <= S.w * S.h THEN RectXY(S.w, i - 1)
                    ELSE <<S.w + RectXY(S.w2, i - 1 - S.w * S.h)[1], RectXY(S.w2, i - 1 - S.w * S.h)[2]>>]

InReadingOrder(P) ==
  SetToSortSeq(1 .. Len(P), LAMBDA a, b : P[a][2] > P[b][2] \/ (P[a][2] = P[b][2] /\ P[a][1] < P[b][1]))

Faithful(toks, word, P) ==
  LET n == Len(word)
      order == InReadingOrder(P)
      X(i) == P[order[i]][1]
      Y(i) == P[order[i]][2]
  IN  /\ Len(toks) = n
      /\ \A i \in 1 .. n :
           /\ toks[i][3] = word[order[i]]
           /\ \A j \in 1 .. n : /\ (toks[i][1] < toks[j][1]) = (Y(i) > Y(j))
                                /\ (toks[i][2] < toks[j][2]) = (X(i) < X(j))

Part(i) == IF i <= S.w * S.h THEN 1 ELSE 2
Linked(l, P) ==
  LET order == InReadingOrder(P)
      drawn == {{order[l.pairs[i][1]], order[l.pairs[i][2]]} : i \in 1 .. Len(l.pairs)}
  IN  /\ l.stray = 0
      /\ Cardinality(drawn) = Len(l.pairs)
      /\ drawn = {b \in {{i, j} : i, j \in 1 .. Len(P)} : \A i, j \in b : i = j \/ (Part(i) = Part(j) /\ UnitApart(P[i], P[j]))}
                 \ {{i} : i \in 1 .. Len(P)}

WordOf(x) == IF "word" \in DOMAIN x THEN x.word
             ELSE LET m == {i \in 1 .. Len(S.v) : S.v[i] = x.coeff}   \* the state that has this coefficient
                  IN  IF m = {} THEN <<>> ELSE Unrank(S.w * S.h, S.nh, S.nb, Min(m) - 1)
Judge ==
  IF item = 0 THEN "v" \notin DOMAIN S \/ Len(S.items) = S.want \/ Say("number of drawings", Len(S.items))
  ELSE LET x == S.items[item] IN
       IF x.err # "" THEN Say("raised", <<x.err, S.kind, S.w, S.h>>)
       ELSE \/ Faithful(x.toks, WordOf(x), Points) /\ Linked(x.links, Points)
            \/ Say("drawing", <<S.kind, S.w, S.h, x>>)
=============================================================================
