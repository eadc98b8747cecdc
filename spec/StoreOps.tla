------------------------------ MODULE StoreOps ------------------------------
(***************************************************************************)
(* Computations in memory (slots) and on disk (files).                     *)
(* A computation is a record with at least the fields                      *)
(*   guess  the starting guess of its diagonalization ("none" without)     *)
(*   times  the computation times ("none" without)                         *)
(* Actions:                                                                *)
(*   [op |-> "compute", slot]        a new computation appears in a slot   *)
(*   [op |-> "edit", slot]           the caller changes the computation    *)
(*   [op |-> "save", slot, saver]    it is written to its file             *)
(*   [op |-> "load", slot, saver, from]  the file of slot "from"'s         *)
(*                                   computation is read into slot         *)
(* Starting guesses are never kept in files; only the main saver keeps     *)
(* computation times.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Savers == {"main", "ring", "blocks", "blocks-neel-neigh"}
KeepsTimes(saver) == saver = "main"
Stored(r, saver) == [r EXCEPT !.guess = "none", !.times = IF KeepsTimes(saver) THEN @ ELSE "none"]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
=============================================================================
