---------------------------- MODULE WorkflowGen ----------------------------
(***************************************************************************)
(* The abstract machine of a study, used to generate histories that are    *)
(* then replayed into the code.  disk says which run each saved            *)
(* computation comes from; a computation is identified by the number of    *)
(* the step that produced it, and by the chain of steps it was made from.  *)
(* Every behaviour of length Depth is printed.                             *)
(***************************************************************************)
EXTENDS WorkflowOps, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Sites == 4
Wide  == IOEnv.WIDE = "yes"
SubsetsOf2(X) == {y \in SUBSET X : Cardinality(y) = 2}

Pools    == IF Wide THEN {[c |-> c, s |-> s] : c \in SubsetsOf2({<<1, 1>>, <<1, 2>>, <<1, 0>>, <<2, 1>>, <<2, 0>>}),
                                               s \in SubsetsOf2({"Full", "tJ", "J", "tN", "tSD", "tV"})}
            ELSE {[c |-> {<<1, 1>>, <<1, 2>>}, s |-> {"Full", "tJ"}]}
Vars     == IF Wide THEN {"", "-neel", "-neigh", "-neel-neigh"} ELSE {""}
Ops      == IF Wide THEN {"run", "load", "neel", "plot", "loadp"} ELSE {"run", "load", "neel"}
Actions(p) ==
  {[op |-> o, nh |-> c[1], nb |-> c[2], sel |-> s, var |-> ""] : o \in Ops, c \in p.c, s \in p.s}
  \cup {[op |-> o, nh |-> c[1], nb |-> c[2], sel |-> s, var |-> v] :
          o \in (IF Wide THEN {"blocks", "loadb"} ELSE {"blocks"}), c \in p.c, s \in p.s, v \in Vars}
  \cup {[op |-> o, nh |-> h, nb |-> 0, sel |-> s, var |-> ""] :
          o \in (IF Wide THEN {"sweep", "plots"} ELSE {"sweep"}), h \in {c[1] : c \in p.c}, s \in p.s}

VARIABLES disk, hist, pool, over
vars == <<disk, hist, pool, over>>

Init == disk = <<>> /\ hist = <<>> /\ pool \in Pools /\ over = FALSE      \* disk: key -> chain of steps
Served(a) == Reads(Sites, a) \subseteq DOMAIN disk
Chain(a) == IF Reads(Sites, a) = {} THEN <<Len(hist) + 1>>
            ELSE disk[CHOOSE x \in Reads(Sites, a) : TRUE] \o <<Len(hist) + 1>>
Step(a) ==
  /\ hist' = Append(hist, a)
  /\ disk' = IF Served(a) /\ Writes(Sites, a) # {}
             THEN [x \in DOMAIN disk \cup Writes(Sites, a) |-> IF x \in Writes(Sites, a) THEN Chain(a) ELSE disk[x]]
             ELSE disk
(* In long histories only some steps may ask for what was never saved.     *)
Next == \/ /\ Len(hist) < Depth
           /\ \E a \in Actions(pool) : (~Wide \/ Served(a) \/ Len(hist) % 3 = 0) /\ Step(a)
           /\ UNCHANGED <<pool, over>>
        \/ /\ Len(hist) = Depth /\ ~over /\ over' = TRUE
           /\ UNCHANGED <<disk, hist, pool>>
Spec == Init /\ [][Next]_vars

Emit == over => PrintT("HIST" \o ToJson(hist))

(* Guarantees of the abstract machine.                                     *)
OnlyOwnKeys == [][hist' # hist => \A x \in DOMAIN disk : disk'[x] # disk[x] => x \in Writes(Sites, hist'[Len(hist')])]_vars
Fresh == \A x \in DOMAIN disk : disk[x][Len(disk[x])] \in 1 .. Len(hist)
                                /\ x \in Writes(Sites, hist[disk[x][Len(disk[x])]])
Latest == \A x \in DOMAIN disk : \A i \in 1 .. Len(hist) :
             (i > disk[x][Len(disk[x])] /\ hist[i].op \in {"run", "sweep"}) => x \notin Writes(Sites, hist[i])
=============================================================================
