------------------------------ MODULE CrashOps ------------------------------
(***************************************************************************)
(* Saving with faults.  What a file may hold is a set of values: version   *)
(* names, "none" (there is no file) and "broken" (a file that cannot be    *)
(* loaded).  A fault is one of                                             *)
(*   "no"      none                                                        *)
(*   "kill"    the process is killed after some bytes were written         *)
(*   "werr"    the system refuses to write more than some bytes            *)
(*   "full"    the system refuses to write anything                        *)
(*   "open"    the system refuses to open the file                         *)
(*   "content" the computation cannot be serialized                        *)
(* and an outcome is "done", "error" (reported to the caller) or "killed". *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Outcomes(fault) == CASE fault = "no"      -> {"done"}
                     [] fault = "kill"    -> {"killed", "done"}
                     [] fault = "content" -> {"error"}
                     [] OTHER             -> {"error", "done"}

(* What the file may hold after saving v.                                  *)
MayHold(before, v, fault, outcome) ==
  CASE outcome = "done"   -> {v}
    [] fault = "content"  -> before
    [] fault = "open"     -> before \cup {v, "broken"}
    [] OTHER              -> before \cup {v, "broken"}

(* What a load may answer: a version that the file may hold, or an error.  *)
Versions(may) == may \ {"none", "broken"}
MayFail(may)  == may \cap {"none", "broken"} # {}
AfterLoad(may, got) == IF got = "error" THEN may \cap {"none", "broken"} ELSE {got}
=============================================================================
