------------------------------- MODULE J_Svd -------------------------------
(***************************************************************************)
(* Splitting of tensors (C14). A tensor is its shape and the flat sequence *)
(* of its entries. left and right are the positions of the indices which   *)
(* go to the left and right tensor, in the order in which they appear      *)
(* there; lb and rb the positions of the new bond. dec is a decomposition  *)
(* [s, u, v] of the matrix with rows (left indices) and columns (right     *)
(* indices), which the specification checks, or <<>>.                      *)
(***************************************************************************)
EXTENDS LinAlg, TraceFile

VARIABLES s, k, st, out

RECURSIVE SizeOf(_, _)
SizeOf(shape, ps) == IF ps = <<>> THEN 1 ELSE shape[Head(ps)] * SizeOf(shape, Tail(ps))

\* Number of entries after each index
RECURSIVE Stride(_, _)
Stride(shape, p) == IF p = Len(shape) THEN 1 ELSE shape[p + 1] * Stride(shape, p + 1)

\* Contribution to the flat position of the multi-index number n (from 0) over ps
RECURSIVE Offset(_, _, _)
Offset(shape, ps, n) ==
    IF ps = <<>> THEN 0
    ELSE LET rest == Tail(ps)
             q == SizeOf(shape, rest)
         IN  ((n \div q) * Stride(shape, Head(ps))) + Offset(shape, rest, n % q)

Rows(e) == SizeOf(e.shape, e.left)
Columns(e) == SizeOf(e.shape, e.right)

AsMatrix(e, data) ==
    LET ro == Vec(Rows(e), LAMBDA i : Offset(e.shape, e.left, i - 1))
        co == Vec(Columns(e), LAMBDA j : Offset(e.shape, e.right, j - 1))
    IN  Mat(Rows(e), Columns(e), LAMBDA i, j : data[ro[i] + co[j] + 1])

MinI(a, b) == IF a < b THEN a ELSE b

RECURSIVE IDotR(_, _, _)
IDotR(u, v, n) == IF n = 0 THEN 0 ELSE IDotR(u, v, n - 1) + (u[n] * v[n])
IDot(u, v) == IDotR(u, v, Len(u))

Orthogonal(dec) ==
    \A i \in 1..Len(dec) :
        /\ dec[i].s > 0
        /\ IDot(dec[i].u, dec[i].u) = IDot(dec[1].u, dec[1].u)
        /\ IDot(dec[i].v, dec[i].v) = IDot(dec[1].v, dec[1].v)
        /\ \A j \in 1..(i - 1) : IDot(dec[i].u, dec[j].u) = 0 /\ IDot(dec[i].v, dec[j].v) = 0
        /\ i > 1 => dec[i].s < dec[i - 1].s

Gauge(dec) == IDot(dec[1].u, dec[1].u) * IDot(dec[1].v, dec[1].v)
Root(n) == CHOOSE g \in 1..n : g * g = n

FromDec(dec, rows, cols, keep) ==
    Mat(rows, cols, LAMBDA i, j :
        Sum(Vec(keep, LAMBDA n : (((dec[n].s * dec[n].u[i]) % P) * dec[n].v[j]) % P)))

Svs(dec) == LET g == Root(Gauge(dec)) IN Vec(Len(dec), LAMBDA i : dec[i].s * g)

\* maxD = 0: not given
Kept(e) ==
    LET n == Len(SelectSeq(Svs(e.dec), LAMBDA v : 2 * v >= e.cut2))
    IN  IF e.maxD = 0 THEN n ELSE MinI(e.maxD, n)

RECURSIVE FastPow(_, _)
FastPow(b, n) ==
    IF n = 0 THEN 1
    ELSE LET h == FastPow(b, n \div 2) q == (h * h) % P
         IN  IF n % 2 = 1 THEN (q * b) % P ELSE q

RECURSIVE RankFrom(_, _, _)
RankFrom(m, col, rank) ==
    IF m = <<>> \/ col > Cols(m) THEN rank
    ELSE LET piv == {i \in 1..Len(m) : m[i][col] # 0}
         IN  IF piv = {} THEN RankFrom(m, col + 1, rank)
             ELSE LET i == CHOOSE i \in piv : TRUE
                      inv == FastPow(m[i][col], P - 2)
                      rest == TLCEval([n \in 1..(Len(m) - 1) |->
                                 LET row == m[IF n < i THEN n ELSE n + 1]
                                     c == (row[col] * inv) % P
                                 IN  TLCEval([j \in 1..Len(row) |-> (row[j] - ((c * m[i][j]) % P)) % P])])
                  IN  RankFrom(rest, col + 1, rank + 1)
Rank(m) == RankFrom(m, 1, 0)

Insert(sq, p, x) == SubSeq(sq, 1, p - 1) \o <<x>> \o SubSeq(sq, p, Len(sq))

PadTo(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]

Verdict(e) ==
    LET m == AsMatrix(e, e.data)
        known == e.dec # <<>>
        full == MinI(Rows(e), Columns(e))
        kept == IF known THEN Kept(e) ELSE Rank(m)
        bond == IF e.maxD = 0 THEN kept ELSE e.maxD
        want == IF known THEN FromDec(e.dec, Rows(e), Columns(e), kept) ELSE m
        sv == IF known THEN Svs(e.dec) ELSE <<>>
        \* number of singular values which are reported
        nsv == IF e.maxD = 0 THEN full ELSE e.maxD
        Sub(ps) == Vec(Len(ps), LAMBDA i : e.shape[ps[i]])
    IN  IF known /\ ~(Orthogonal(e.dec) /\ m = FromDec(e.dec, Rows(e), Columns(e), Len(e.dec)))
        THEN "the harness gave a wrong decomposition"
        ELSE IF e.raised THEN (IF kept = 0 THEN "ok" ELSE "a valid split was refused")
        ELSE IF kept = 0 THEN "truncation to bond dimension zero wasn't refused"
        ELSE IF e.dim # kept THEN "returned bond dimension"
        ELSE IF e.lshape # Insert(Sub(e.left), e.lb, bond) \/ e.rshape # Insert(Sub(e.right), e.rb, bond)
        THEN "shape or index order of the factors"
        ELSE IF AsMatrix(e, e.prod) # want THEN "product of the factors"
        ELSE IF e.iso # Mat(bond, bond, LAMBDA i, j : IF i = j /\ i <= kept THEN 1 ELSE 0)
        THEN "the factor without the singular values is no isometry"
        ELSE IF known /\ e.gram # Mat(bond, bond, LAMBDA i, j :
                    IF i = j /\ i <= kept THEN (sv[i] * sv[i]) % P ELSE 0)
        THEN "the other factor doesn't carry the singular values"
        ELSE IF e.hassv /\ known /\ e.sv # PadTo(sv, nsv) THEN "vector of singular values"
        ELSE IF e.hassv /\ ~(e.desc /\ e.nsv = nsv) THEN "vector of singular values isn't descending or complete"
        ELSE IF e.hassv /\ ~known
             /\ e.s2 # Sum(Vec(Rows(e), LAMBDA i : Dot(m[i], m[i]))) THEN "sum of squared singular values"
        ELSE IF ~e.same THEN "the input was modified"
        ELSE "ok"

Ok(x, v) == [st |-> x, out |-> v]
Start(ses) == 0
Step(ses, x, e) ==
    CASE e.op = "split" -> Ok(x, Verdict(e))
      [] e.op = "fact" -> Ok(x, IF e.holds THEN "ok" ELSE e.what)
      [] OTHER -> Ok(x, "unknown event")

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
