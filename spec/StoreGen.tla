------------------------------ MODULE StoreGen ------------------------------
(***************************************************************************)
(* The machine of StoreOps over two slots, exploring and printing every    *)
(* history of length Depth.  A computation is [id, ver, guess, times]:     *)
(* ver counts the changes made to it.                                      *)
(***************************************************************************)
EXTENDS StoreOps, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
UsedSavers == IF IOEnv.WIDE = "yes" THEN Savers ELSE {"main", "ring"}
Slots == {1, 2}

VARIABLES mem, files, hist, over
vars == <<mem, files, hist, over>>

Fresh(s) == [id |-> s, ver |-> Len(hist), guess |-> "some", times |-> "some"]
Act(a) == hist' = Append(hist, a)
Compute(s) == Act([op |-> "compute", slot |-> s, saver |-> "", from |-> 0]) /\ mem' = Put(mem, s, Fresh(s)) /\ UNCHANGED files
Edit(s) == s \in DOMAIN mem /\ Act([op |-> "edit", slot |-> s, saver |-> "", from |-> 0])
           /\ mem' = [mem EXCEPT ![s].ver = @ + 100] /\ UNCHANGED files
Save(s, v) == /\ s \in DOMAIN mem /\ Act([op |-> "save", slot |-> s, saver |-> v, from |-> 0])
              /\ files' = Put(files, <<v, mem[s].id>>, Stored(mem[s], v))
              /\ mem' = IF v = "main" THEN [mem EXCEPT ![s].guess = "none"] ELSE mem
Load(s, v, o) == /\ o \in DOMAIN mem /\ <<v, mem[o].id>> \in DOMAIN files
                 /\ Act([op |-> "load", slot |-> s, saver |-> v, from |-> o])
                 /\ mem' = Put(mem, s, files[<<v, mem[o].id>>]) /\ UNCHANGED files

Init == mem = <<>> /\ files = <<>> /\ hist = <<>> /\ over = FALSE
Next == \/ /\ Len(hist) < Depth /\ UNCHANGED over
           /\ \/ \E s \in Slots : (s \notin DOMAIN mem /\ Compute(s)) \/ Edit(s)
              \/ \E s \in Slots, v \in UsedSavers : Save(s, v)
              \/ \E s, o \in Slots, v \in UsedSavers : Load(s, v, o)
        \/ Len(hist) = Depth /\ ~over /\ over' = TRUE /\ UNCHANGED <<mem, files, hist>>
Spec == Init /\ [][Next]_vars

Useful == \E i, j \in 1 .. Len(hist) : i < j /\ hist[i].op = "save" /\ hist[j].op = "load"
Emit == (over /\ Useful) => PrintT("HIST" \o ToJson(hist))

(* Guarantees of the abstract machine.                                     *)
NoGuessOnDisk == \A x \in DOMAIN files : files[x].guess = "none"
LoadSaveIsIdentity == [][\A s \in DOMAIN mem : \A v \in UsedSavers :
   (hist' # hist /\ hist'[Len(hist')].op = "save" /\ Len(hist) > 0 /\ hist[Len(hist)].op = "load"
    /\ hist'[Len(hist')].slot = hist[Len(hist)].slot /\ hist'[Len(hist')].saver = hist[Len(hist)].saver) => files' = files]_vars
=============================================================================
