------------------------------ MODULE LinAlg ------------------------------
(***************************************************************************)
(* Linear algebra over the integers modulo the prime P. Every value which  *)
(* the harness records is an exact integer (floating-point arithmetic is   *)
(* exact on the integers and dyadic rationals used), sent modulo P so that *)
(* no intermediate value overflows the 32-bit integers of TLC.             *)
(* Vectors are sequences, matrices are sequences of rows.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

P == 46337

Md(x) == x % P

RECURSIVE DotR(_, _, _)
DotR(u, v, k) == IF k = 0 THEN 0 ELSE (DotR(u, v, k - 1) + u[k] * v[k]) % P

Dot(u, v) == DotR(u, v, Len(u))

RECURSIVE SumR(_, _)
SumR(u, k) == IF k = 0 THEN 0 ELSE (SumR(u, k - 1) + u[k]) % P

Sum(u) == SumR(u, Len(u))

\* Number of columns
Cols(M) == Len(M[1])

Mat(m, n, Entry(_, _)) ==
    TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> Entry(i, j)])])

Vec(n, Entry(_)) == TLCEval([i \in 1..n |-> Entry(i)])

Transp(M) == Mat(Cols(M), Len(M), LAMBDA j, i : M[i][j])

MatMul(A, B) ==
    LET T == Transp(B) IN Mat(Len(A), Len(T), LAMBDA i, j : Dot(A[i], T[j]))

MatVec(A, v) == Vec(Len(A), LAMBDA i : Dot(A[i], v))

VecMat(v, A) ==
    LET T == Transp(A) IN Vec(Len(T), LAMBDA j : Dot(v, T[j]))

MatAdd(A, B) == Mat(Len(A), Cols(A), LAMBDA i, j : (A[i][j] + B[i][j]) % P)

VecAdd(u, v) == Vec(Len(u), LAMBDA i : (u[i] + v[i]) % P)

VecSub(u, v) == Vec(Len(u), LAMBDA i : (u[i] - v[i]) % P)

VecScale(c, u) == Vec(Len(u), LAMBDA i : (c * u[i]) % P)

MatScale(c, A) == Mat(Len(A), Cols(A), LAMBDA i, j : (c * A[i][j]) % P)

Eye(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)

Zeros(m, n) == Mat(m, n, LAMBDA i, j : 0)

ZeroVec(n) == Vec(n, LAMBDA i : 0)

Unit(n, k) == Vec(n, LAMBDA i : IF i = k THEN 1 ELSE 0)

Trace(M) == Sum(Vec(Len(M), LAMBDA i : M[i][i]))

Outer(u, v) == Mat(Len(u), Len(v), LAMBDA i, j : (u[i] * v[j]) % P)

\* v * M_1 * ... * M_k
RECURSIVE VecMats(_, _)
VecMats(v, Ms) ==
    IF Ms = <<>> THEN v ELSE VecMats(VecMat(v, Head(Ms)), Tail(Ms))

\* M_1 * ... * M_k * v
RECURSIVE MatsVec(_, _)
MatsVec(Ms, v) ==
    IF Ms = <<>> THEN v
    ELSE MatsVec(SubSeq(Ms, 1, Len(Ms) - 1), MatVec(Ms[Len(Ms)], v))

\* M_1 * ... * M_k, for square n x n matrices
RECURSIVE MatsFrom(_, _)
MatsFrom(A, Ms) ==
    IF Ms = <<>> THEN A ELSE MatsFrom(MatMul(A, Head(Ms)), Tail(Ms))

Mats(Ms, n) == IF Ms = <<>> THEN Eye(n) ELSE MatsFrom(Head(Ms), Tail(Ms))

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE (b * Pow(b, e - 1)) % P

\* Concatenation of all the sequences in a sequence
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Range(f) == {f[x] : x \in DOMAIN f}
=============================================================================
