------------------------------ MODULE TrigNorm ------------------------------
(***************************************************************************)
(* The trigonometric embedding has unit norm: the squares of its features, *)
(* for cosines with the square p/q, add up to 1. Variant "flat" leaves out *)
(* the binomial coefficients.                                              *)
(***************************************************************************)
EXTENDS DataOps, TLC

CONSTANTS MaxD, MaxQ, Variant

VARIABLES d, p, q
vars == <<d, p, q>>

Init == d \in 1..MaxD /\ q \in 1..MaxQ /\ p \in 0..q
Next == UNCHANGED vars

Features ==
    IF Variant = "flat" THEN Tup(d, LAMBDA j : Pow(p, d - j) * Pow(q - p, j - 1))
    ELSE TrigSquares(d, p, q)

UnitNorm == SumOf(Features) = Pow(q, d - 1)

\* What traces of large dimensions are compared with
Reduced == \A m \in {7, 46337} :
    \A i \in 1..d : TrigSquaresMod(d, p, q, m)[i] = TrigSquares(d, p, q)[i] % m
=============================================================================
