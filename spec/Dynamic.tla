------------------------------- MODULE Dynamic -------------------------------
(***************************************************************************)
(* Second-order couplings that the dynamic embedding among blocks adds to  *)
(* the static one.                                                         *)
(*                                                                         *)
(* The machine walks the states of the block.  From a state a it visits    *)
(* the intermediate states of the two blocks, once each: an electron of    *)
(* the neighboring block (in any of its states) has come to a hole of a at *)
(* most two bonds away across the border.  From an intermediate state,     *)
(* electrons of the same spin hop back from the block to holes of the      *)
(* neighbor at most two bonds away across the border.  Two different       *)
(* returns, to (a1, b1) and (a2, b2) with amplitudes c1 and c2, couple a1  *)
(* and a2 (both ways) by                                                   *)
(*        psi(b1) psi(b2) c1 c2 / (2 E - E(intermediate)),                 *)
(* psi being the last ground state of the block (with spins exchanged when *)
(* asked) and E its energy; couplings below the threshold are left out.    *)
(* With four, the same couplings act through the four rotations.           *)
(*                                                                         *)
(* num collects the numerators by <<row, column, denominator>>: fractions  *)
(* with the same denominator are added exactly.  The dressing D recorded   *)
(* from the code (dynamic minus static dressed matrix, in units of         *)
(* 1/(nrm * 100000)) is judged after the last state.                       *)
(***************************************************************************)
EXTENDS TJ, TLC, Json, IOUtils

Scn == JsonDeserialize(IOEnv.SCN)
N   == Len(Scn)
Two == [k \in 1 .. N |-> Lattice("clusters", Scn[k].w, Scn[k].h)]

VARIABLES k, occ, num
vars == <<k, occ, num>>
Say(clause, x) == PrintT("FAIL" \o ToString(<<Scn[k].id, ToDet(occ), clause, [w |-> Scn[k].w, h |-> Scn[k].h, nh |-> Scn[k].nh, nb |-> Scn[k].nb, rev |-> Scn[k].rev, four |-> Scn[k].four], x>>))

Reach(L, q) == Nbr(L, q) \cup Straight(L, q) \cup Diag(L, q)
Part(s, word, j) == [q \in 1 .. s.n |-> word[q + j * s.n]]
NeighborDown(s) == IF s.rev THEN s.n - s.nh - s.nb ELSE s.nb
NeighborStates(s) == TLCEval({Unrank(s.n, s.nh, NeighborDown(s), i) : i \in 0 .. s.dim - 1})
Psi(s, b) == s.v[Rank(IF s.rev THEN FlipAll(b) ELSE b) + 1]

Intermediate(L, s, a) ==
  LET holes == {q \in 0 .. s.n - 1 : a[q + 1] = Hole}
      from  == [q \in holes |-> {x \in Reach(L, q) : x >= s.n}]
  IN  UNION {UNION {{Swap(a \o b, q, x) : x \in {y \in from[q] : b[y - s.n + 1] # Hole}} : q \in holes} : b \in NeighborStates(s)}
(* the spin of the electron that came, from the spins of the block         *)
Came(s, a, P) == IF CountOf(Part(s, P, 0), Up) > CountOf(a, Up) THEN Up ELSE Down

Hop(L, s, h, e) == IF e \in Nbr(L, h) THEN s.prm.t ELSE IF e \in Straight(L, h) THEN s.prm.tstraight ELSE s.prm.tbent
Returns(L, s, a, P) ==
  LET spin == Came(s, a, P)
  IN  UNION {{<<h, e>> : e \in {y \in Reach(L, h) : y < s.n /\ P[y + 1] = spin}} :
             h \in {x \in s.n .. 2 * s.n - 1 : P[x + 1] = Hole}}

(* Quarters of the unit; the energy of the ground state is the integer E.  *)
Denominator(L, s, P) ==
  8 * s.e0 - StateEnergy([lat |-> L, r |-> L.sites, r2 |-> L.sites, prm |-> s.prm], P)
Abs(x) == IF x < 0 THEN -x ELSE x
Kept(s, x, den) == 4 * 997 * Abs(x) >= s.thr * s.nrm * Abs(den)       \* |4 x / (nrm den)| >= thr / 997

(* <<label, row, column, denominator, numerator>>                          *)
Terms(L, s, a) ==
  UNION {LET back == [m \in Returns(L, s, a, P) |->
                        LET w == Swap(P, m[1], m[2]) IN [a |-> Rank(Part(s, w, 0)), p |-> Psi(s, Part(s, w, 1)), c |-> Hop(L, s, m[1], m[2])]]
             den  == Denominator(L, s, P)
         IN  {<<<<P, m[1], m[2]>>, back[m[1]].a, back[m[2]].a, den,
                back[m[1]].p * back[m[2]].p * back[m[1]].c * back[m[2]].c>> :
                m \in {y \in (DOMAIN back) \X (DOMAIN back) : y[1] # y[2]
                         /\ Kept(s, back[y[1]].p * back[y[2]].p * back[y[1]].c * back[y[2]].c, den)}} :
         P \in Intermediate(L, s, a)}
Add(f, terms) ==
  FoldSet(LAMBDA t, g : LET key == <<t[2], t[3], t[4]>> IN
                        IF t[5] = 0 THEN g ELSE IF key \in DOMAIN g THEN [g EXCEPT ![key] = @ + t[5]] ELSE g @@ (key :> t[5]), f, terms)

Empty == [x \in {} |-> 0]
Init == k \in 1 .. N /\ occ = <<>> /\ num = Empty
Next == /\ Scn[k].err = ""
        /\ IF occ = <<>> THEN occ' = FirstOcc(Scn[k].n, Scn[k].nh, Scn[k].nb)
           ELSE HasSuccessor(occ) /\ occ' = Successor(occ)
        /\ num' = TLCEval(Add(num, Terms(Two[k], Scn[k], occ')))
        /\ k' = k
Spec == Init /\ [][Next]_vars

(* 400000 * x / den, to the nearest below.                                 *)
Scaled(x, den) ==
  LET y == IF den < 0 THEN -4 * x ELSE 4 * x
      d == Abs(den)
  IN  (y \div d) * 100000 + ((y % d) * 100000) \div d
Turns == IF Scn[k].four THEN {"id", "rot90", "rot180", "rot270"} ELSE {"id"}
Want ==     \* as a function of <<row, column>>
  LET s == Scn[k]
      block == Lattice("periodic", s.w, s.h)
      perms == TLCEval([g \in Turns |-> SitePerm(block, g)])
      to    == TLCEval([g \in Turns |-> [i \in 0 .. s.dim - 1 |-> Rank(Permute(Unrank(s.n, s.nh, s.nb, i), perms[g]))]])
  IN  FoldSet(LAMBDA key, f : FoldSet(LAMBDA g, f2 :
                LET at == <<to[g][key[1]], to[g][key[2]]>>
                    x  == Scaled(num[key], key[3])
                IN  IF at \in DOMAIN f2 THEN [f2 EXCEPT ![at] = @ + x] ELSE f2 @@ (at :> x), f, Turns),
              Empty, DOMAIN num)

(* The machine's own dressing is symmetric.                                *)
SpecSound == \A x \in DOMAIN num : <<x[2], x[1], x[3]>> \in DOMAIN num /\ num[<<x[2], x[1], x[3]>>] = num[x]

Slack == 2 + Cardinality(Turns) * Cardinality({x[3] : x \in DOMAIN num})      \* one unit of rounding for each fraction
Entry(row, j) == LET m == {i \in 1 .. Len(row) : row[i][1] = j} IN IF m = {} THEN 0 ELSE row[CHOOSE i \in m : TRUE][2]
Judge ==
  IF Scn[k].err # "" THEN Say("raised", Scn[k].err)
  ELSE occ = <<>> \/ HasSuccessor(occ) \/
  LET want == TLCEval(Want) s == Scn[k] IN
  /\ \A i \in 0 .. s.dim - 1 : \A j \in 0 .. s.dim - 1 :
       LET w == IF <<i, j>> \in DOMAIN want THEN want[<<i, j>>] ELSE 0
           g == Entry(s.D[i + 1], j)
       IN  Abs(w - g) <= Slack \/ Say("second-order coupling", <<i, j, [want |-> w, got |-> g, unit |-> s.nrm * 100000]>>)
  /\ \A j \in 1 .. Len(s.result) : s.result[j] = "" \/ Say("result", s.result[j])
=============================================================================
