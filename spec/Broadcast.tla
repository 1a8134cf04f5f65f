----------------------------- MODULE Broadcast -----------------------------
(***************************************************************************)
(* Broadcasting as it is done: shapes are taken in one after the other     *)
(* (C18). Invariants: the result is that of the standard rules, which do   *)
(* not depend on an order. Broken variants: "left" aligns at the left,     *)
(* "zero" takes 0 for a size which fits everywhere, "first" keeps the      *)
(* sizes of the longest shape, "max" takes the largest size.               *)
(***************************************************************************)
EXTENDS Shapes, FiniteSets

CONSTANTS Sz, MaxRank, Count, How

VARIABLES shapes, cur
vars == <<shapes, cur>>

AllShapes == UNION {[1..n -> Sz] : n \in 0..MaxRank}

Init == shapes = <<>> /\ cur = <<>>

\* Size of two dimensions together, or -1
Meet(a, b) ==
    IF How = "zero" /\ (a = 0 \/ b = 0) THEN (IF a = 0 THEN b ELSE a)
    ELSE IF How = "max" THEN (IF a > b THEN a ELSE b)
    ELSE IF How = "first" THEN (IF b = 1 \/ a = b THEN a ELSE -1)
    ELSE IF a = b \/ b = 1 THEN a ELSE IF a = 1 THEN b ELSE -1

At(shp, i, n) ==
    IF How = "left" THEN (IF i > Len(shp) THEN 1 ELSE shp[i])
    ELSE Back(shp, n - i + 1)

Take(c, shp) ==
    IF c = None THEN None
    ELSE LET n == IF Len(c) > Len(shp) THEN Len(c) ELSE Len(shp)
             r == [i \in 1..n |-> Meet(At(c, i, n), At(shp, i, n))]
         IN  IF \E i \in 1..n : r[i] = -1 THEN None ELSE r

Next == \E shp \in AllShapes :
          /\ Len(shapes) < Count
          /\ shapes' = Append(shapes, shp)
          /\ cur' = IF shapes = <<>> THEN shp ELSE Take(cur, shp)

Standard == cur = IF Compatible(shapes) THEN Common(shapes) ELSE None

\* Every entry stands for an entry which exists, and all of them are used
Entries ==
    cur # None =>
        \A j \in 1..Len(shapes) :
            LET src == {Source(shapes[j], cur, k) : k \in 0..(Prod(cur) - 1)}
            IN  src \subseteq 0..(Prod(shapes[j]) - 1)
                /\ (Prod(cur) > 0 => Cardinality(src) = Prod(shapes[j]))
=============================================================================
