----------------------------- MODULE InitTensor -----------------------------
(***************************************************************************)
(* How an initial tensor is built (C21): an identity matrix is laid out    *)
(* along the bond indices (with size 1 in the other dimensions), spread    *)
(* over the others, and placed into a tensor of zeros. Invariant: the      *)
(* documented entries. Broken variants: "leftfirst" always takes the size  *)
(* of the left bond first, "uncapped" caps by the left bond only, "corner" *)
(* spreads the identity over the first two dimensions whatever they are,   *)
(* "once" fills the first slice only.                                      *)
(***************************************************************************)
EXTENDS InitOps

CONSTANTS Sz, MaxDim, Extra, How

VARIABLES shp, labels, method, dim, step, val
vars == <<shp, labels, method, dim, step, val>>

Names == {"l", "r"} \cup Extra
Rank == 2 + (IF Extra = {} THEN 0 ELSE IF Extra = {"o"} THEN 1 ELSE 2)
Orders == {f \in [1..Rank -> Names] : \A i, j \in 1..Rank : i # j => f[i] # f[j]}

Init ==
    /\ labels \in Orders /\ shp \in [1..Rank -> Sz] /\ dim \in 1..MaxDim
    /\ method \in {"random_zero", "random_eye", "min_random_eye"}
    /\ step = "zero" /\ val = Vec(Size(shp), LAMBDA k : 0)

L == Place(labels, "l")
R == Place(labels, "r")
Bond(i) == i \in {L, R}

\* Extent of the block in dimension i
Cap == IF How = "uncapped" THEN Min2(dim, shp[L]) ELSE Min2(dim, Min2(shp[L], shp[R]))
Extent(i) == IF ~Bond(i) \/ method = "random_eye" THEN shp[i] ELSE Cap

\* Rows and columns of the identity, in the order of the dimensions
Rows == IF How = "leftfirst" \/ L < R THEN Extent(L) ELSE Extent(R)
Columns == IF How = "leftfirst" \/ L < R THEN Extent(R) ELSE Extent(L)
First == IF How = "corner" THEN 1 ELSE Min2(L, R)
Second == IF How = "corner" THEN 2 ELSE (L + R) - First

\* Entry of the identity which is laid out at an index, by its number
Laid(k) ==
    LET flat == ((At(shp, k, First) - 1) * Extent(Second)) + (At(shp, k, Second) - 1)
    IN  IF (flat \div Columns) = (flat % Columns) THEN 1 ELSE 0

Inside(k) == \A i \in 1..Rank : At(shp, k, i) <= Extent(i) /\ (How = "once" /\ ~Bond(i) => At(shp, k, i) = 1)

Fill == step = "zero" /\ method # "random_zero" /\ step' = "done"
        /\ val' = Vec(Size(shp), LAMBDA k : IF Inside(k) THEN Laid(k) ELSE 0)
        /\ UNCHANGED <<shp, labels, method, dim>>
Leave == step = "zero" /\ method = "random_zero" /\ step' = "done" /\ UNCHANGED <<shp, labels, method, dim, val>>
Next == Fill \/ Leave

AsDocumented == step = "done" => val = Documented(shp, labels, method, dim)
=============================================================================
