------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* The algebra of contractables (C17). A value has a kind, the dimensions  *)
(* l and r of its free bonds (0: no such bond), the dimensions outs of its *)
(* outputs in the order of the chain, and for every batch element v[b] a   *)
(* matrix for every combination of outputs (in row-major order). A missing *)
(* bond counts as one of dimension 1. Values of kind "reg" (regions) have  *)
(* the matrices mats[b] instead, those of kind "list" the items.           *)
(*   kinds: mat, core, left, right, oleft, oright, scalar, reg, gen, list  *)
(***************************************************************************)
EXTENDS LinAlg

One(d) == IF d = 0 THEN 1 ELSE d

Batch(x) == IF x.kind = "reg" THEN Len(x.mats) ELSE Len(x.v)

\* What a region stands for
Closed(x) ==
    IF x.kind # "reg" THEN x
    ELSE [kind |-> "mat", l |-> x.l, r |-> x.r, outs |-> <<>>,
          v |-> Vec(Len(x.mats), LAMBDA b : <<Mats(x.mats[b], x.l)>>)]

KindOf(l, r, outs) ==
    IF Len(outs) = 0
    THEN IF l > 0 /\ r > 0 THEN "mat" ELSE IF l > 0 THEN "right" ELSE IF r > 0 THEN "left" ELSE "scalar"
    ELSE IF Len(outs) = 1 /\ l > 0 /\ r > 0 THEN "core" ELSE "gen"

IsScalar(x) == x.kind = "scalar"
Vector(x) == x.kind \in {"left", "right"}

\* x has a bond to the right, y has one to the left
Adjacent(x, y) == IsScalar(x) \/ IsScalar(y) \/ (x.r > 0 /\ y.l > 0)

Fits(x, y) ==
    /\ Batch(x) = Batch(y)
    /\ IsScalar(x) \/ IsScalar(y) \/ x.r = y.l

(***************************************************************************)
(* Products which the library has to offer. Regions are multiplied with    *)
(* vectors only, output matrices with vectors or from the left with the    *)
(* matrices and cores of a chain.                                          *)
(***************************************************************************)
Supported(x, y) ==
    /\ Adjacent(x, y)
    /\ \/ IsScalar(x) /\ y.kind # "list"
       \/ IsScalar(y) /\ x.kind \notin {"oleft", "oright"}
       \/ x.kind = "left" /\ y.kind = "reg"
       \/ x.kind = "reg" /\ y.kind = "right"
       \/ x.kind = "oleft" /\ y.kind = "right"
       \/ x.kind \in {"mat", "core", "left"} /\ y.kind = "oright"
       \/ /\ ~IsScalar(x) /\ ~IsScalar(y)
          /\ x.kind \notin {"reg", "oleft"} /\ y.kind \notin {"reg", "oright"}

\* Matrix products for all combinations of outputs
Combine(xs, ys) ==
    LET n == Len(ys)
    IN  Vec(Len(xs) * n, LAMBDA k : MatMul(xs[((k - 1) \div n) + 1], ys[((k - 1) % n) + 1]))

\* A region without matrices stands for an identity, which is scaled
RECURSIVE ScaledBy(_, _)
ScaledBy(x, sc) ==
    IF x.kind = "reg" /\ \A b \in 1..Len(x.mats) : x.mats[b] = <<>>
    THEN ScaledBy(Closed(x), sc)
    ELSE IF x.kind = "reg"
    THEN [x EXCEPT !.mats = Vec(Len(@), LAMBDA b : <<MatScale(sc.v[b][1][1][1], x.mats[b][1])>>
                                                   \o Tail(x.mats[b]))]
    ELSE [x EXCEPT !.v = Vec(Len(@), LAMBDA b :
              Vec(Len(x.v[b]), LAMBDA k : MatScale(sc.v[b][1][1][1], x.v[b][k])))]

\* The product of two neighbours which fit
Product(x, y) ==
    IF IsScalar(x) THEN ScaledBy(y, x)
    ELSE IF IsScalar(y) THEN ScaledBy(x, y)
    ELSE LET a == Closed(x) b == Closed(y) outs == a.outs \o b.outs
         IN  [kind |-> KindOf(a.l, b.r, outs), l |-> a.l, r |-> b.r, outs |-> outs,
              v |-> Vec(Len(a.v), LAMBDA i : Combine(a.v[i], b.v[i]))]

\* What a value stands for, apart from its kind
Meaning(x) ==
    LET c == Closed(x) IN [l |-> c.l, r |-> c.r, outs |-> c.outs, v |-> c.v]

Nothing == [kind |-> "nothing"]

(***************************************************************************)
(* What the documented algorithms give: a value, or Nothing when they meet *)
(* an unsupported product.                                                 *)
(***************************************************************************)
RECURSIVE Times(_, _), FoldRight(_, _), FoldLeft(_, _)
\* items (from the last to the first) * y
FoldRight(items, y) ==
    IF items = <<>> \/ y = Nothing THEN y
    ELSE FoldRight(SubSeq(items, 1, Len(items) - 1), Times(items[Len(items)], y))
FoldLeft(x, items) ==
    IF items = <<>> \/ x = Nothing THEN x
    ELSE FoldLeft(Times(x, Head(items)), Tail(items))
Times(x, y) ==
    IF x = Nothing \/ y = Nothing THEN Nothing
    ELSE IF x.kind = "list" THEN IF y.kind = "list" THEN Nothing ELSE FoldRight(x.items, y)
    ELSE IF y.kind = "list" THEN FoldLeft(x, y.items)
    ELSE IF Supported(x, y) THEN Product(x, y)
    ELSE Nothing

RECURSIVE Serial(_), Parallel(_)
\* Right to left, and at the left end where that isn't supported
Serial(items) ==
    LET n == Len(items)
    IN  IF n = 0 THEN Nothing
        ELSE IF n = 1 THEN items[1]
        \* Two lists can't be multiplied, whatever is done at the other end
        ELSE IF items[n - 1].kind = "list" /\ items[n].kind = "list" THEN Nothing
        ELSE LET z == Times(items[n - 1], items[n])
             IN  IF z # Nothing THEN Serial(Append(SubSeq(items, 1, n - 2), z))
                 ELSE LET a == Times(items[1], items[2])
                      IN  IF a # Nothing THEN Serial(<<a>> \o SubSeq(items, 3, n))
                          ELSE Nothing
\* All items are reduced first
Parallel(items) ==
    LET rs == Vec(Len(items), LAMBDA i :
                IF items[i].kind = "list" THEN Serial(items[i].items) ELSE Closed(items[i]))
    IN  IF \E i \in 1..Len(rs) : rs[i] = Nothing THEN Nothing ELSE Serial(rs)

\* The ordered product of everything, whatever the library supports
RECURSIVE Items(_), Whole(_)
Items(items) ==
    IF items = <<>> THEN <<>>
    ELSE (IF items[1].kind = "list" THEN Items(items[1].items) ELSE <<items[1]>>) \o Items(Tail(items))
Whole(items) ==
    IF Len(items) = 1 THEN items[1]
    ELSE Whole(<<Product(items[1], items[2])>> \o SubSeq(items, 3, Len(items)))

\* Neighbours fit together (scalars may stand anywhere)
RECURSIVE Chained(_)
Chained(items) ==
    LET xs == SelectSeq(items, LAMBDA x : ~IsScalar(x))
    IN  /\ \A i \in 1..(Len(xs) - 1) : xs[i].r > 0 /\ xs[i].r = xs[i + 1].l
        /\ \A i \in 1..Len(items) : Batch(items[i]) = Batch(items[1])
=============================================================================
