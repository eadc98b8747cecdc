----------------------------- MODULE HistoryOps -----------------------------
(***************************************************************************)
(* A session: the objects a caller holds and the calls made on them.       *)
(*                                                                         *)
(* Every calculation of the code is a function: the value of an object is  *)
(* its term, the tree of the calls it was made by.  A call creates an      *)
(* object with a new term and changes no other one.  An object may be part *)
(* of another one (a state taken from a basis): a caller who overwrites    *)
(* one overwrites both.                                                    *)
(*                                                                         *)
(* obj[i] = [kind, c, term, of, dead]: kind of the object; number of the   *)
(* configuration it belongs to (0: none); its term; the object it is part  *)
(* of (0: none); whether its caller has overwritten it.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Sources: objects made of nothing but a number.                          *)
Sources == {"conf", "inter", "sel", "block"}

(* op -> kinds of the arguments and of the result.  The arguments that     *)
(* belong to a configuration all belong to the same one.                   *)
Table == [
  basis    |-> [a |-> <<"conf">>, r |-> "basis"],
  vec      |-> [a |-> <<"conf">>, r |-> "vec"],
  json     |-> [a |-> <<"conf">>, r |-> "plain"],
  bonds    |-> [a |-> <<"conf">>, r |-> "plain"],
  around   |-> [a |-> <<"conf">>, r |-> "plain"],
  lattice  |-> [a |-> <<"conf">>, r |-> "plain"],
  det      |-> [a |-> <<"basis">>, r |-> "det"],
  mix      |-> [a |-> <<"conf", "det">>, r |-> "det"],
  index    |-> [a |-> <<"conf", "det">>, r |-> "plain"],
  spins    |-> [a |-> <<"conf", "det">>, r |-> "plain"],
  where    |-> [a |-> <<"conf", "det">>, r |-> "plain"],
  reverse  |-> [a |-> <<"conf", "det">>, r |-> "plain"],
  rotate   |-> [a |-> <<"conf", "det">>, r |-> "det"],
  reorder  |-> [a |-> <<"conf", "det">>, r |-> "det"],
  extend   |-> [a |-> <<"conf", "det", "det">>, r |-> "plain"],
  show     |-> [a |-> <<"conf", "det">>, r |-> "plain"],
  hop      |-> [a |-> <<"conf", "inter", "det">>, r |-> "plain"],
  next     |-> [a |-> <<"conf", "inter", "det">>, r |-> "plain"],
  static   |-> [a |-> <<"conf", "inter", "det">>, r |-> "plain"],
  flip     |-> [a |-> <<"conf", "inter", "det">>, r |-> "plain"],
  singlet  |-> [a |-> <<"conf", "inter", "det">>, r |-> "plain"],
  repel    |-> [a |-> <<"conf", "inter", "det">>, r |-> "plain"],
  energy   |-> [a |-> <<"conf", "inter", "det">>, r |-> "plain"],
  dynamic  |-> [a |-> <<"conf", "inter", "sel", "det">>, r |-> "plain"],
  sz       |-> [a |-> <<"conf", "vec">>, r |-> "plain"],
  szsz     |-> [a |-> <<"conf", "vec">>, r |-> "vec"],
  ladder   |-> [a |-> <<"conf", "vec">>, r |-> "vec"],
  s2       |-> [a |-> <<"conf", "vec">>, r |-> "vec"],
  s2val    |-> [a |-> <<"conf", "vec">>, r |-> "plain"],
  number   |-> [a |-> <<"conf", "vec">>, r |-> "plain"],
  turn     |-> [a |-> <<"basis", "vec">>, r |-> "plain"],
  turned   |-> [a |-> <<"basis">>, r |-> "plain"],
  density  |-> [a |-> <<"basis", "vec">>, r |-> "plain"],
  largest  |-> [a |-> <<"basis", "vec">>, r |-> "plain"],
  most     |-> [a |-> <<"basis", "vec">>, r |-> "plain"],
  showtop  |-> [a |-> <<"basis", "vec">>, r |-> "plain"],
  showall  |-> [a |-> <<"basis">>, r |-> "plain"],
  ham      |-> [a |-> <<"basis", "inter", "sel">>, r |-> "mat"],
  eig      |-> [a |-> <<"mat">>, r |-> "plain"],
  lowest   |-> [a |-> <<"mat">>, r |-> "plain"],
  ortho    |-> [a |-> <<"block">>, r |-> "plain"],
  orthos   |-> [a |-> <<"block">>, r |-> "plain"],
  run      |-> [a |-> <<"conf", "inter", "sel">>, r |-> "comp"],
  store    |-> [a |-> <<"comp">>, r |-> "comp"],
  neel     |-> [a |-> <<"comp">>, r |-> "plain"],
  blocks   |-> [a |-> <<"comp">>, r |-> "plain"]]
Ops == DOMAIN Table

Obj(kind, c, term, of) == [kind |-> kind, c |-> c, term |-> term, of |-> of, dead |-> FALSE]

(* A call is [op, k, a]: the operation, a number (which source, which      *)
(* state, which site) and the objects it is given.                         *)
Fits(obj, s) ==
  IF s.op \in Sources THEN s.a = <<>>
  ELSE IF s.op = "spoil" THEN Len(s.a) = 1 /\ s.a[1] \in 1 .. Len(obj) /\ ~obj[s.a[1]].dead /\ obj[s.a[1]].kind \notin Sources
  ELSE /\ Len(s.a) = Len(Table[s.op].a)
       /\ \A i \in 1 .. Len(s.a) : s.a[i] \in 1 .. Len(obj) /\ ~obj[s.a[i]].dead /\ obj[s.a[i]].kind = Table[s.op].a[i]
       /\ \A i, j \in 1 .. Len(s.a) : obj[s.a[i]].c # 0 /\ obj[s.a[j]].c # 0 => obj[s.a[i]].c = obj[s.a[j]].c

RECURSIVE Listed(_, _, _)
Listed(obj, a, i) == IF i > Len(a) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o obj[a[i]].term \o Listed(obj, a, i + 1)
TermOf(obj, s) == s.op \o ToString(s.k) \o (IF s.op \in Sources THEN "" ELSE "(" \o Listed(obj, s.a, 1) \o ")")

(* Everything that shares memory with object x: what it is part of and     *)
(* what is part of it.                                                     *)
RootOf(obj, x) == IF obj[x].of = 0 THEN x ELSE obj[x].of
Shared(obj, x) == {y \in 1 .. Len(obj) : RootOf(obj, y) = RootOf(obj, x)}

After(obj, s) ==
  IF s.op = "spoil" THEN [x \in 1 .. Len(obj) |-> IF x \in Shared(obj, s.a[1]) THEN [obj[x] EXCEPT !.dead = TRUE] ELSE obj[x]]
  ELSE IF s.op \in Sources THEN Append(obj, Obj(s.op, IF s.op = "conf" THEN Len(obj) + 1 ELSE 0, TermOf(obj, s), 0))
  ELSE LET cs == {obj[s.a[i]].c : i \in 1 .. Len(s.a)} \ {0} IN
       Append(obj, Obj(Table[s.op].r, IF cs = {} THEN 0 ELSE CHOOSE c \in cs : TRUE, TermOf(obj, s),
                       IF s.op = "det" THEN RootOf(obj, s.a[1]) ELSE 0))
=============================================================================
