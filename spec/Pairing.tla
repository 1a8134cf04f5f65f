------------------------------ MODULE Pairing ------------------------------
(***************************************************************************)
(* Merge patterns of an adaptive MPS. Cores are at positions 0..N, the     *)
(* label core at position label. In the pattern with offset off the cores  *)
(* off, off+1 are merged, and off+2, off+3, and so on.                     *)
(* A block is [kind, p, n]: kind "in" (a lone input core), "out" (the lone *)
(* label core), "pair" (two input cores), "ol" (label core and the input   *)
(* core to its right), "or" (input core and the label core to its right);  *)
(* p is the position of its first core, n the number of its cores.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RECURSIVE BlocksFrom(_, _, _, _)
BlocksFrom(p, N, label, off) ==
    IF p > N THEN <<>>
    ELSE IF p % 2 = off /\ p + 1 <= N
    THEN <<[kind |-> IF p = label THEN "ol" ELSE IF p + 1 = label THEN "or" ELSE "pair",
            p |-> p, n |-> 2]>> \o BlocksFrom(p + 2, N, label, off)
    ELSE <<[kind |-> IF p = label THEN "out" ELSE "in", p |-> p, n |-> 1]>>
         \o BlocksFrom(p + 1, N, label, off)

Pattern(N, label, off) == BlocksFrom(0, N, label, off)

\* Merged blocks
Split(b) == b.n = 2

(***************************************************************************)
(* Parameters of a pattern: consecutive blocks of two input cores are kept *)
(* in one tensor. The shapes follow.                                       *)
(***************************************************************************)
RECURSIVE RunOf(_, _)
RunOf(bs, k) == IF k <= Len(bs) /\ bs[k].kind = "pair" THEN 1 + RunOf(bs, k + 1) ELSE 0

RECURSIVE Shapes(_, _, _, _, _)
Shapes(bs, k, D, d, O) ==
    IF k > Len(bs) THEN <<>>
    ELSE CASE bs[k].kind = "pair" ->
                <<<<RunOf(bs, k), D, D, d, d>>>> \o Shapes(bs, k + RunOf(bs, k), D, d, O)
           [] bs[k].kind = "in" -> <<<<D, D, d>>>> \o Shapes(bs, k + 1, D, d, O)
           [] bs[k].kind = "out" -> <<<<O, D, D>>>> \o Shapes(bs, k + 1, D, d, O)
           [] OTHER -> <<<<O, D, D, d>>>> \o Shapes(bs, k + 1, D, d, O)
=============================================================================
