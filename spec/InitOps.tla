------------------------------ MODULE InitOps ------------------------------
(***************************************************************************)
(* Initial values without noise (C21), and freshly built models.           *)
(***************************************************************************)
EXTENDS Chain

Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Size(_)
Size(shp) == IF shp = <<>> THEN 1 ELSE Head(shp) * Size(Tail(shp))

\* The index (from 1) of entry k (from 1) in dimension i
At(shp, k, i) == (((k - 1) \div Size(SubSeq(shp, i + 1, Len(shp)))) % shp[i]) + 1

Place(labels, c) == CHOOSE i \in 1..Len(labels) : labels[i] = c

(***************************************************************************)
(* The documented entries: a slice (everything but l and r fixed) is zero, *)
(* an identity, or an identity with dim entries on the diagonal, capped by *)
(* the bond dimensions.                                                    *)
(***************************************************************************)
Entry(shp, labels, method, dim, k) ==
    IF method = "random_zero" THEN 0
    ELSE LET l == Place(labels, "l") r == Place(labels, "r")
             cap == IF method = "random_eye" THEN Min2(shp[l], shp[r])
                    ELSE Min2(dim, Min2(shp[l], shp[r]))
         IN  IF At(shp, k, l) = At(shp, k, r) /\ At(shp, k, l) <= cap THEN 1 ELSE 0

Documented(shp, labels, method, dim) ==
    Vec(Size(shp), LAMBDA k : Entry(shp, labels, method, dim, k))

\* Cores of the probabilistic models: an identity for every slice
NearEye(shp) ==
    LET n == Len(shp)
    IN  Vec(Size(shp), LAMBDA k : IF At(shp, k, n - 1) = At(shp, k, n) THEN 1 ELSE 0)

CutEye(D, n) == Mat(D, D, LAMBDA i, j : IF i = j /\ i <= n THEN 1 ELSE 0)

(***************************************************************************)
(* Freshly built models, for options o with fields N, O, D, d, label,      *)
(* periodic, adaptive, bias, path                                          *)
(***************************************************************************)
FreshSup(o) ==
    LET n == IF o.adaptive THEN Min2(o.O, o.D) ELSE o.D
        eye == IF o.adaptive THEN CutEye(o.D, n) ELSE Zeros(o.D, o.D)
        b == IF o.bias /\ ~o.adaptive THEN Eye(o.D) ELSE <<>>
    IN  [type |-> "sup", label |-> o.label, periodic |-> o.periodic, path |-> o.path, fmap |-> <<>>,
         cores |-> Vec(o.N, LAMBDA i : Mat(o.D, o.D, LAMBDA l, r : Vec(o.d, LAMBDA j : eye[l][r]))),
         biasL |-> b, biasR |-> b, outcore |-> Vec(o.O, LAMBDA j : CutEye(o.D, n)),
         init |-> <<>>, term |-> <<>>]

\* Fields O, D, d, bias; the terminal matrix is the fixed one
FreshTI(o) ==
    [type |-> "ti", cores |-> <<Mat(o.D, o.D, LAMBDA l, r : Vec(o.d, LAMBDA j : 0))>>,
     biasL |-> IF o.bias THEN Eye(o.D) ELSE <<>>, init |-> Vec(o.D, LAMBDA i : 1),
     term |-> Mat(o.D, o.O, LAMBDA i, j : IF i = j THEN 1 ELSE 0), path |-> <<>>, fmap |-> <<>>]
=============================================================================
