------------------------------ MODULE CrashGen ------------------------------
(***************************************************************************)
(* The machine of CrashOps over one file and the versions "A" and "B",     *)
(* with what the file really holds, so that MayHold is checked to be       *)
(* sound for a saver that truncates, writes piecewise and may be stopped   *)
(* after any piece.  Prints every history of Depth saves.                  *)
(***************************************************************************)
EXTENDS CrashOps, Json, IOUtils

Depth    == atoi(IOEnv.DEPTH)
Pieces   == 2
Faults   == {"no", "kill", "werr", "full", "open", "content"}
VARIABLES may, file, saving, hist, over
vars == <<may, file, saving, hist, over>>
Idle == [v |-> "", fault |-> "no", left |-> 0]

Init == may = {"none"} /\ file = "none" /\ saving = Idle /\ hist = <<>> /\ over = FALSE
End(outcome) == may' = MayHold(may, saving.v, saving.fault, outcome) /\ saving' = Idle
Start(v, f) == /\ Len(hist) < Depth /\ hist' = Append(hist, [v |-> v, fault |-> f])
               /\ saving' = [v |-> v, fault |-> f, left |-> Pieces + 1] /\ UNCHANGED <<may, file, over>>
Step == /\ saving.left > 0 /\ UNCHANGED <<hist, over>>
        /\ \/ saving.fault = "content" /\ saving.left = Pieces + 1 /\ End("error") /\ UNCHANGED file
           \/ saving.fault = "open" /\ saving.left = Pieces + 1 /\ End("error") /\ UNCHANGED file
           \/ saving.fault # "content" /\ saving.fault # "open" /\
              \/ /\ saving.left > 1 /\ saving' = [saving EXCEPT !.left = @ - 1] /\ file' = "broken" /\ UNCHANGED may
              \/ saving.left = 1 /\ saving.fault # "full" /\ file' = saving.v /\ End("done")
              \/ saving.fault = "kill" /\ End("killed") /\ UNCHANGED file
              \/ saving.fault \in {"werr", "full"} /\ saving.left <= Pieces /\ End("error") /\ UNCHANGED file
Next == \/ saving = Idle /\ \E v \in {"A", "B"}, f \in Faults : Start(v, f)
        \/ Step
        \/ Len(hist) = Depth /\ saving = Idle /\ ~over /\ over' = TRUE /\ UNCHANGED <<may, file, saving, hist>>
Spec == Init /\ [][Next]_vars

Emit  == over => PrintT("HIST" \o ToJson(hist))
Sound == saving = Idle => file \in may
NeverMixed == file \in {"none", "broken", "A", "B"}
=============================================================================
