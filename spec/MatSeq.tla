------------------------------ MODULE MatSeq ------------------------------
(***************************************************************************)
(* Products of sequences of matrices with optional boundary vectors, with  *)
(* broadcasting over batch dimensions (properties C04, C05, C02).          *)
(* An operand is a record [shape, data] or, if complex, [shape, re, im],   *)
(* with the entries in row-major order. Its last two dimensions are those  *)
(* of a matrix (boundary vectors are recorded as 1 x D and D x 1).         *)
(***************************************************************************)
EXTENDS LinAlg

\* ---- standard broadcasting of shapes -------------------------------------

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* Entry of a shape, counted from the right, 1 if missing
FromRight(shape, n) == IF n <= Len(shape) THEN shape[Len(shape) + 1 - n] ELSE 1

Sizes(shapes, n) == {FromRight(shapes[i], n) : i \in 1..Len(shapes)} \ {1}

Compatible(shapes) ==
    \A n \in 1..MaxOf({Len(shapes[i]) : i \in 1..Len(shapes)} \cup {0}) :
        \A a, b \in Sizes(shapes, n) : a = b

BroadcastShape(shapes) ==
    LET r == MaxOf({Len(shapes[i]) : i \in 1..Len(shapes)} \cup {0})
    IN  Vec(r, LAMBDA i :
            LET S == Sizes(shapes, r + 1 - i)
            IN  IF S = {} THEN 1 ELSE CHOOSE x \in S : TRUE)

RECURSIVE Prod(_)
Prod(shape) == IF shape = <<>> THEN 1 ELSE Head(shape) * Prod(Tail(shape))

\* Multi-index (zero-based) of the n-th (zero-based) entry, row-major
RECURSIVE Index(_, _)
Index(shape, n) ==
    IF shape = <<>> THEN <<>>
    ELSE LET rest == Prod(Tail(shape))
         IN  <<n \div rest>> \o Index(Tail(shape), n % rest)

RECURSIVE Offset(_, _)
Offset(shape, idx) ==
    IF shape = <<>> THEN 0
    ELSE Head(idx) * Prod(Tail(shape)) + Offset(Tail(shape), Tail(idx))

\* Index into a tensor of the given batch shape which a broadcast index means
Project(shape, idx) ==
    Vec(Len(shape), LAMBDA i :
        IF shape[i] = 1 THEN 0 ELSE idx[Len(idx) - Len(shape) + i])

BatchOf(op) == SubSeq(op.shape, 1, Len(op.shape) - 2)
RowsOf(op) == op.shape[Len(op.shape) - 1]
ColsOf(op) == op.shape[Len(op.shape)]

IsComplex(op) == "re" \in DOMAIN op

\* Matrix at a broadcast batch index. Complex numbers are represented by
\* real 2 x 2 blocks when cplx is set
MatAt(op, idx, cplx) ==
    LET m == RowsOf(op)
        n == ColsOf(op)
        base == Offset(BatchOf(op), Project(BatchOf(op), idx)) * m * n
        Re(i, j) == IF IsComplex(op) THEN op.re[base + (i - 1) * n + j]
                    ELSE op.data[base + (i - 1) * n + j]
        Im(i, j) == IF IsComplex(op) THEN op.im[base + (i - 1) * n + j] ELSE 0
    IN  IF ~cplx THEN Mat(m, n, Re)
        ELSE Mat(2 * m, 2 * n, LAMBDA i, j :
                LET a == (i + 1) \div 2
                    b == (j + 1) \div 2
                IN  IF i % 2 = 1 /\ j % 2 = 1 THEN Re(a, b)
                    ELSE IF i % 2 = 0 /\ j % 2 = 0 THEN Re(a, b)
                    ELSE IF i % 2 = 0 THEN Im(a, b)
                    ELSE Md(0 - Im(a, b)))

\* The expected product at a batch index, with the product over no operand
\* being the n x n identity
ProductAt(ops, idx, cplx, n) ==
    IF ops = <<>> THEN Eye(IF cplx THEN 2 * n ELSE n)
    ELSE MatsFrom(MatAt(ops[1], idx, cplx),
                  Vec(Len(ops) - 1, LAMBDA i : MatAt(ops[i + 1], idx, cplx)))

Batch(ops) == BroadcastShape(Vec(Len(ops), LAMBDA i : BatchOf(ops[i])))

\* The expected result: shape, real and imaginary entries. `strip..` tells
\* whether the row / column dimension (of a boundary vector) is removed
Expected(ops, extra, dim, cplx, stripRow, stripCol) ==
    LET batch == TLCEval(IF ops = <<>> THEN extra ELSE Batch(ops))
        rows == IF ops = <<>> THEN dim ELSE RowsOf(ops[1])
        cols == IF ops = <<>> THEN dim ELSE ColsOf(ops[Len(ops)])
        mats == TLCEval([n \in 0..(Prod(batch) - 1) |->
                    TLCEval(ProductAt(ops, Index(batch, n), cplx, dim))])
        size == rows * cols
        At(i, im) ==
            LET M == mats[(i - 1) \div size]
                a == (((i - 1) % size) \div cols) + 1
                b == (((i - 1) % size) % cols) + 1
            IN  IF ~cplx THEN M[a][b]
                ELSE IF im THEN M[2 * a][2 * b - 1] ELSE M[2 * a - 1][2 * b - 1]
    IN  [shape |-> batch \o (IF stripRow THEN <<>> ELSE <<rows>>)
                         \o (IF stripCol THEN <<>> ELSE <<cols>>),
         re |-> Vec(Prod(batch) * size, LAMBDA i : At(i, FALSE)),
         im |-> IF cplx THEN Vec(Prod(batch) * size, LAMBDA i : At(i, TRUE)) ELSE <<>>]

AnyComplex(ops) == \E i \in 1..Len(ops) : IsComplex(ops[i])

\* Is o the observation of what was expected?
ProductVerdict(x, o) ==
    IF o.shape # x.shape THEN "shape of the product"
    ELSE IF x.im = <<>>
         THEN IF "data" \in DOMAIN o
              THEN IF o.data # x.re THEN "value of the product" ELSE "ok"
              ELSE IF o.re # x.re \/ Range(o.im) \ {0} # {}
              THEN "value of the product" ELSE "ok"
    ELSE IF "data" \in DOMAIN o
         THEN IF Len(x.re) = 0 THEN "ok" ELSE "complex product expected"
    ELSE IF o.re # x.re THEN "real part of the product"
    ELSE IF o.im # x.im THEN "imaginary part of the product"
    ELSE "ok"
=============================================================================
