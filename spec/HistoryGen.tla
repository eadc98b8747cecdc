----------------------------- MODULE HistoryGen -----------------------------
(***************************************************************************)
(* Generates sessions that are then replayed into the code: every session  *)
(* of a few calls on prepared objects (WIDE = no), or long random ones.    *)
(***************************************************************************)
EXTENDS HistoryOps, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Wide  == IOEnv.WIDE = "yes"
Confs == 5
VARIABLES obj, hist, over
vars == <<obj, hist, over>>

Source(o, k) == [op |-> o, k |-> k, a |-> <<>>]
Call(o, k, a) == [op |-> o, k |-> k, a |-> a]
RECURSIVE Made(_, _)
Made(ob, steps) == IF steps = <<>> THEN ob ELSE Made(After(ob, Head(steps)), Tail(steps))

(* What a session starts with.                                             *)
Starts == IF Wide THEN {<<Source("conf", i), Source("conf", j), Source("inter", 1), Source("sel", k), Source("sel", 1), Call("basis", 0, <<1>>),
                          Call("vec", 1, <<1>>), Call("basis", 0, <<2>>), Call("vec", 1, <<2>>), Source("inter", 2), Call("det", 1, <<6>>), Call("det", 2, <<8>>)>> :
                          i \in 1 .. Confs, j \in 1 .. Confs, k \in 1 .. 2}
          ELSE {<<Source("conf", 1), Source("inter", 1), Source("sel", 1), Call("basis", 0, <<1>>), Call("det", 1, <<4>>), Call("vec", 1, <<1>>),
                  Call("ham", 0, <<4, 2, 3>>), Source("block", 1), Call("mix", 1, <<1, 5>>), Call("run", 0, <<1, 2, 3>>)>>}
(* In the short sessions the last call takes the newest state.             *)
Alive(x) == {i \in 1 .. Len(obj) : obj[i].kind = x /\ ~obj[i].dead}
Kind(x) == IF ~Wide /\ x = "det" /\ Len(hist) = Depth - 1 THEN {i \in Alive(x) : \A j \in Alive(x) : j <= i} ELSE Alive(x)
Args(o) == LET t == Table[o].a IN
  CASE Len(t) = 1 -> {<<i>> : i \in Kind(t[1])}
    [] Len(t) = 2 -> {<<i, j>> : i \in Kind(t[1]), j \in Kind(t[2])}
    [] Len(t) = 3 -> {<<i, j, l>> : i \in Kind(t[1]), j \in Kind(t[2]), l \in Kind(t[3])}
    [] Len(t) = 4 -> {<<i, j, l, m>> : i \in Kind(t[1]), j \in Kind(t[2]), l \in Kind(t[3]), m \in Kind(t[4])}
Numbers(o) == IF o \in {"det", "vec", "mix"} THEN 1 .. 3 ELSE IF o \in {"rotate", "where", "spins", "ladder", "szsz", "largest", "showtop", "neel", "most"} THEN 0 .. 1 ELSE {0}
Heavy == {"neel", "blocks", "run", "store"}
Count(o) == Cardinality({i \in 1 .. Len(hist) : hist[i].op = o})

Init == \E s \in Starts : hist = s /\ obj = Made(<<>>, s) /\ over = FALSE
Room == Len(hist) < Depth
Do(s) == Fits(obj, s) /\ obj' = After(obj, s) /\ hist' = Append(hist, s) /\ UNCHANGED over
Calls(o) == /\ Room
            /\ o \in Heavy => Count(o) < 2
            /\ \E k \in (IF Wide THEN Numbers(o) ELSE IF o \in {"neel", "most"} THEN Numbers(o) ELSE {CHOOSE n \in Numbers(o) : TRUE}), a \in Args(o) : Do(Call(o, k, a))
Spoils == /\ Room /\ \E i \in 1 .. Len(obj) : (Wide \/ i > 10) /\ Do([op |-> "spoil", k |-> 0, a |-> <<i>>])
Makes == Room /\ Wide /\ \E o \in Sources, k \in 1 .. 2 : Do(Source(o, k))
Ends == ~Room /\ ~over /\ over' = TRUE /\ UNCHANGED <<obj, hist>>
Next == (\E o \in Ops : Calls(o)) \/ Spoils \/ Makes \/ Ends
Spec == Init /\ [][Next]_vars

Emit == over => PrintT("HIST" \o ToJson(hist))

(* The machine never changes the value of an object; it only adds objects  *)
(* and forgets overwritten ones.                                           *)
Kept == [][Len(obj') >= Len(obj) /\ \A i \in 1 .. Len(obj) : obj'[i] = obj[i] \/ obj'[i] = [obj[i] EXCEPT !.dead = TRUE]]_vars
Typed == \A i \in 1 .. Len(obj) : obj[i].of # 0 => obj[obj[i].of].of = 0 /\ (obj[i].dead <=> obj[obj[i].of].dead)
=============================================================================
