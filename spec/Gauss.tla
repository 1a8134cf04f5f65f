------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Linear algebra over the Gaussian integers modulo P. Numbers are pairs   *)
(* <<re, im>>; real models have im = 0 everywhere.                         *)
(***************************************************************************)
EXTENDS LinAlg

C0 == <<0, 0>>
C1 == <<1, 0>>

CAdd(a, b) == <<(a[1] + b[1]) % P, (a[2] + b[2]) % P>>
CSub(a, b) == <<(a[1] - b[1]) % P, (a[2] - b[2]) % P>>
CMul(a, b) == <<(((a[1] * b[1]) % P) - ((a[2] * b[2]) % P)) % P,
                (((a[1] * b[2]) % P) + ((a[2] * b[1]) % P)) % P>>
CConj(a) == <<a[1], (0 - a[2]) % P>>
CScale(c, a) == <<(c * a[1]) % P, (c * a[2]) % P>>
\* |a|^2
CAbs2(a) == (((a[1] * a[1]) % P) + ((a[2] * a[2]) % P)) % P

RECURSIVE CDotR(_, _, _)
CDotR(u, v, k) ==
    IF k = 0 THEN C0 ELSE CAdd(CDotR(u, v, k - 1), CMul(u[k], v[k]))
CDot(u, v) == CDotR(u, v, Len(u))

RECURSIVE CSumR(_, _)
CSumR(u, k) == IF k = 0 THEN C0 ELSE CAdd(CSumR(u, k - 1), u[k])
CSum(u) == CSumR(u, Len(u))

CVecMat(v, A) ==
    LET T == Transp(A) IN Vec(Len(T), LAMBDA j : CDot(v, T[j]))
CMatVec(A, v) == Vec(Len(A), LAMBDA i : CDot(A[i], v))
CMatMul(A, B) ==
    LET T == Transp(B) IN Mat(Len(A), Len(T), LAMBDA i, j : CDot(A[i], T[j]))
CMatAdd(A, B) == Mat(Len(A), Cols(A), LAMBDA i, j : CAdd(A[i][j], B[i][j]))
CMatScale(c, A) == Mat(Len(A), Cols(A), LAMBDA i, j : CMul(c, A[i][j]))
CMatConj(A) == Mat(Len(A), Cols(A), LAMBDA i, j : CConj(A[i][j]))
CUnit(n, k) == Vec(n, LAMBDA i : IF i = k THEN C1 ELSE C0)
CElem(m, n, a, b) == Mat(m, n, LAMBDA i, j : IF i = a /\ j = b THEN C1 ELSE C0)

RECURSIVE CVecMats(_, _)
CVecMats(v, Ms) ==
    IF Ms = <<>> THEN v ELSE CVecMats(CVecMat(v, Head(Ms)), Tail(Ms))
=============================================================================
