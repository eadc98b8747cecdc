------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Lattices of the t-J simulator as point sets in the plane.               *)
(*                                                                         *)
(* The implementation never stores coordinates: it writes adjacency        *)
(* matrices by block concatenation and reasons on site indices.  Here a    *)
(* lattice is DEFINED by the position of each index, and everything else   *)
(* (adjacency, second neighbours, alignment, symmetries) is derived from   *)
(* the positions.                                                          *)
(*                                                                         *)
(*   periodic    w x h rectangle, row by row from the south-west corner    *)
(*   clusters    two w x h rectangles side by side, the west one first,    *)
(*               each indexed row by row                                   *)
(*   ring        the sites around a w x h rectangle (no corners), counter- *)
(*               clockwise: south side eastwards, east side northwards,    *)
(*               north side westwards, west side southwards                *)
(*   peripheral  the w x h rectangle followed by its ring                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"periodic", "clusters", "ring", "peripheral"}

NumSites(kind, w, h) ==
  CASE kind = "periodic"   -> w * h
    [] kind = "clusters"   -> 2 * w * h
    [] kind = "ring"       -> 2 * (w + h)
    [] kind = "peripheral" -> w * h + 2 * (w + h)

RectXY(w, s) == <<s % w, s \div w>>

RingXY(w, h, r) ==
  IF r < w THEN <<r, -1>>
  ELSE IF r < w + h THEN <<w, r - w>>
  ELSE IF r < 2 * w + h THEN <<w - 1 - (r - w - h), h>>
  ELSE <<-1, h - 1 - (r - 2 * w - h)>>

SiteXY(kind, w, h, s) ==
  CASE kind = "periodic"   -> RectXY(w, s)
    [] kind = "clusters"   -> LET q == s % (w * h)
                              IN  <<RectXY(w, q)[1] + w * (s \div (w * h)), RectXY(w, q)[2]>>
    [] kind = "ring"       -> RingXY(w, h, s)
    [] kind = "peripheral" -> IF s < w * h THEN RectXY(w, s) ELSE RingXY(w, h, s - w * h)

UnitApart(p, q) ==
  \/ p[1] = q[1] /\ p[2] - q[2] \in {-1, 1}
  \/ p[2] = q[2] /\ p[1] - q[1] \in {-1, 1}

(* Three or more points on one row or on one column.                       *)
OnOneLine(points) ==
  \/ Cardinality({p[1] : p \in points}) = 1
  \/ Cardinality({p[2] : p \in points}) = 1

(* A lattice record.  Sites are 0 .. n-1; tables are sequences indexed by  *)
(* site + 1.  Sec is reached by two bonds, Straight/Diag split it by       *)
(* alignment.                                                              *)
Lattice(kind, w, h) ==
  LET n     == NumSites(kind, w, h)
      sites == 0 .. n - 1
      xy    == [i \in 1 .. n |-> SiteXY(kind, w, h, i - 1)]
      nbr   == [i \in 1 .. n |-> {r \in sites : UnitApart(xy[i], xy[r + 1])}]
      sec   == [i \in 1 .. n |-> UNION {nbr[m + 1] : m \in nbr[i]} \ ({i - 1} \cup nbr[i])]
      strt  == [i \in 1 .. n |-> {r \in sec[i] : OnOneLine({xy[i], xy[r + 1]})}]
  IN  [kind |-> kind, w |-> w, h |-> h, n |-> n,
       sites    |-> sites,
       xy       |-> xy,
       nbr      |-> nbr,
       bonds    |-> {b \in sites \X sites : b[1] < b[2] /\ b[2] \in nbr[b[1] + 1]},
       sec      |-> sec,
       straight |-> strt,
       diag     |-> [i \in 1 .. n |-> sec[i] \ strt[i]]]

Nbr(L, s)      == L.nbr[s + 1]
Sec(L, s)      == L.sec[s + 1]
Straight(L, s) == L.straight[s + 1]
Diag(L, s)     == L.diag[s + 1]
At(L, s)       == L.xy[s + 1]

(* Three sites that form a path (exactly two of the three pairs are bonds).*)
NumBonds3(L, a, b, c) ==
  (IF b \in Nbr(L, a) THEN 1 ELSE 0) + (IF c \in Nbr(L, b) THEN 1 ELSE 0)
  + (IF c \in Nbr(L, a) THEN 1 ELSE 0)
IsPath3(L, a, b, c) == Cardinality({a, b, c}) = 3 /\ NumBonds3(L, a, b, c) = 2
Aligned3(L, a, b, c) == OnOneLine({At(L, a), At(L, b), At(L, c)})

(***************************************************************************)
(* Symmetries: permutations of the sites given by isometries of the plane  *)
(* that map the point set to itself.  g is one of the eight elements of    *)
(* the dihedral group acting on the bounding box of the lattice.           *)
(***************************************************************************)
Isometries == {"id", "rot90", "rot180", "rot270", "mirx", "miry", "transp", "anti"}

(* Image of the point p of a lattice whose bounding box is                 *)
(* [x0 .. x1] x [y0 .. y1]; rot90 is clockwise.                            *)
MapPoint(g, p, x0, x1, y0, y1) ==
  LET x == p[1] - x0   y == p[2] - y0   mx == x1 - x0   my == y1 - y0
      q == CASE g = "id"     -> <<x, y>>
             [] g = "rot180" -> <<mx - x, my - y>>
             [] g = "mirx"   -> <<mx - x, y>>
             [] g = "miry"   -> <<x, my - y>>
             [] g = "rot90"  -> <<y, mx - x>>
             [] g = "rot270" -> <<my - y, x>>
             [] g = "transp" -> <<y, x>>
             [] g = "anti"   -> <<my - y, mx - x>>
  IN  <<q[1] + x0, q[2] + y0>>

Box(L) ==
  LET xs == {L.xy[i][1] : i \in 1 .. L.n}
      ys == {L.xy[i][2] : i \in 1 .. L.n}
  IN  [x0 |-> CHOOSE v \in xs : \A u \in xs : v <= u,
       x1 |-> CHOOSE v \in xs : \A u \in xs : u <= v,
       y0 |-> CHOOSE v \in ys : \A u \in ys : v <= u,
       y1 |-> CHOOSE v \in ys : \A u \in ys : u <= v]

(* Quarter turns and diagonal mirrors only act on square boxes.            *)
ApplicableIsometries(L) ==
  LET b == Box(L)
  IN  IF b.x1 - b.x0 = b.y1 - b.y0 THEN Isometries
      ELSE {"id", "rot180", "mirx", "miry"}

SitePerm(L, g) ==
  LET b == Box(L)
  IN  [i \in 1 .. L.n |->
         CHOOSE s \in L.sites : At(L, s) = MapPoint(g, L.xy[i], b.x0, b.x1, b.y0, b.y1)]
=============================================================================
