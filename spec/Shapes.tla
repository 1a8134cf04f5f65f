------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Broadcasting of batch shapes (C18): the standard rules, and which entry *)
(* of a tensor an entry of its broadcasted version stands for. Tensors are *)
(* given by their shape and their entries in row-major order.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

None == <<-1>>

\* The size of a shape in the dimension which is p-th from the right
Back(shp, p) == IF p > Len(shp) THEN 1 ELSE shp[Len(shp) - p + 1]

RECURSIVE MaxLen(_)
MaxLen(shapes) ==
    IF shapes = <<>> THEN 0
    ELSE LET n == MaxLen(Tail(shapes)) IN IF Len(Head(shapes)) > n THEN Len(Head(shapes)) ELSE n

(***************************************************************************)
(* The rules: in every dimension, counted from the right, all sizes which  *)
(* are not 1 agree, and are the size of the result.                        *)
(***************************************************************************)
Sizes(shapes, p) == {Back(shapes[i], p) : i \in 1..Len(shapes)} \ {1}
Compatible(shapes) ==
    \A p \in 1..MaxLen(shapes) : \A a, b \in Sizes(shapes, p) : a = b
Common(shapes) ==
    LET n == MaxLen(shapes)
    IN  TLCEval([i \in 1..n |->
            LET z == Sizes(shapes, n - i + 1)
            IN  IF z = {} THEN 1 ELSE CHOOSE a \in z : TRUE])

RECURSIVE Prod(_)
Prod(shp) == IF shp = <<>> THEN 1 ELSE Head(shp) * Prod(Tail(shp))

\* The index (from 0) of entry k (from 0) in dimension i
Coord(shp, k, i) == (k \div Prod(SubSeq(shp, i + 1, Len(shp)))) % shp[i]

RECURSIVE Offset(_, _)
\* Number of the entry with the given indices
Offset(shp, idx) ==
    IF shp = <<>> THEN 0
    ELSE (Offset(SubSeq(shp, 1, Len(shp) - 1), SubSeq(idx, 1, Len(shp) - 1)) * shp[Len(shp)])
         + idx[Len(shp)]

\* Entry of the original for entry k of a tensor of shape big, of which the
\* dimensions of the original are the last ones
Source(shp, big, k) ==
    LET gap == Len(big) - Len(shp)
    IN  Offset(shp, TLCEval([i \in 1..Len(shp) |->
                        IF shp[i] = 1 THEN 0 ELSE Coord(big, k, i + gap)]))

Expanded(t, big) ==
    [shape |-> big,
     data |-> TLCEval([k \in 1..Prod(big) |-> t.data[Source(t.shape, big, k - 1) + 1]])]

BatchPart(t, nnb) == SubSeq(t.shape, 1, Len(t.shape) - nnb)
OtherPart(t, nnb) == SubSeq(t.shape, Len(t.shape) - nnb + 1, Len(t.shape))

Batches(ts, nnb) == TLCEval([i \in 1..Len(ts) |-> BatchPart(ts[i], nnb[i])])

BroadcastAll(ts, nnb) ==
    LET common == Common(Batches(ts, nnb))
    IN  [i \in 1..Len(ts) |-> Expanded(ts[i], common \o OtherPart(ts[i], nnb[i]))]

\* Tensors of equal shapes, stacked along a new dimension d (from 1)
Stacked(ts, d) ==
    LET shp == ts[1].shape
        big == SubSeq(shp, 1, d - 1) \o <<Len(ts)>> \o SubSeq(shp, d, Len(shp))
        Rest(k) == [i \in 1..Len(shp) |-> Coord(big, k, IF i < d THEN i ELSE i + 1)]
    IN  [shape |-> big,
         data |-> TLCEval([k \in 1..Prod(big) |->
                     ts[Coord(big, k - 1, d) + 1].data[Offset(shp, TLCEval(Rest(k - 1))) + 1]])]
=============================================================================
