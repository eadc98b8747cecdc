---------------------------- MODULE WorkflowOps ----------------------------
(***************************************************************************)
(* The stages of a study and the computations they read and write.         *)
(* A saved computation is filed under a key <<folder, content, selection>>;*)
(* a content is <<holes, spins down>> on the lattice of the study.         *)
(*   run     compute and save one content                                  *)
(*   sweep   compute and save every spin content with that many holes      *)
(*   load    read a saved computation (folder "")                          *)
(*   neel    read folder "", save in "Peripheral_embedding"                *)
(*   blocks  read folder "" (or "Peripheral_embedding" for the variants    *)
(*           that follow the ring embedding), save in "Embedding_blocks"   *)
(*   plot    read folder "" for one content                                *)
(*   plots   read folder "" for every spin content with that many holes    *)
(*   loadp, loadb  read what neel and blocks saved                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Main == "."
Ring == "Peripheral_embedding"
Blocks(var) == "Embedding_blocks" \o var
AfterRing(var) == var \in {"-neel", "-neel-neigh"}

Key(dir, nh, nb, sel) == <<dir, nh, nb, sel>>

Reads(n, a) ==
  CASE a.op \in {"run", "sweep"}    -> {}
    [] a.op \in {"load", "neel", "plot"} -> {Key(Main, a.nh, a.nb, a.sel)}
    [] a.op = "loadp"  -> {Key(Ring, a.nh, a.nb, a.sel)}
    [] a.op = "loadb"  -> {Key(Blocks(a.var), a.nh, a.nb, a.sel)}
    [] a.op = "blocks" -> {Key(IF AfterRing(a.var) THEN Ring ELSE Main, a.nh, a.nb, a.sel)}
    [] a.op = "plots"  -> {Key(Main, a.nh, nb, a.sel) : nb \in 0 .. n - a.nh}
Writes(n, a) ==
  CASE a.op = "run"    -> {Key(Main, a.nh, a.nb, a.sel)}
    [] a.op = "sweep"  -> {Key(Main, a.nh, nb, a.sel) : nb \in 0 .. n - a.nh}
    [] a.op = "neel"   -> {Key(Ring, a.nh, a.nb, a.sel)}
    [] a.op = "blocks" -> {Key(Blocks(a.var), a.nh, a.nb, a.sel)}
    [] OTHER           -> {}
=============================================================================
