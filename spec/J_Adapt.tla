------------------------------ MODULE J_Adapt ------------------------------
(***************************************************************************)
(* Trace validation for adaptive MPS (C10-C13, C20). The specification     *)
(* keeps for every instance the count, the offset, and the function as a   *)
(* chain of blocks, which is the one of the parameters of the pattern in   *)
(* use (own = TRUE) or of the pattern before the last switch, after the    *)
(* truncation (own = FALSE).                                               *)
(* Tensors of blocks: in [l][r][i], pair [l][r][i][j], out [o][l][r],      *)
(* ol and or [o][l][r][i].                                                 *)
(* A decomposition of a block as a matrix is a sequence of [s, u, v] in    *)
(* plain integers; the specification checks that the vectors u (and v) are *)
(* orthogonal and of the same length, so that the singular values are s    *)
(* times the product of the lengths.                                       *)
(***************************************************************************)
EXTENDS Pairing, LinAlg, TraceFile

VARIABLES s, k, st, out

Ok(x, v) == [st |-> x, out |-> v]

(***************************************************************************)
(* The function                                                            *)
(***************************************************************************)
\* Input of position p, for row x of feature vectors
FeatAt(ses, x, p) == IF p < ses.label THEN x[p + 1] ELSE x[p]

\* Matrix of a block without output; sequence of matrices of one with output
BlockMat(ses, b, x) ==
    CASE b.kind = "in" ->
           LET f == FeatAt(ses, x, b.p) IN
           Mat(ses.D, ses.D, LAMBDA l, r : Dot(b.t[l][r], f))
      [] b.kind = "pair" ->
           LET f == FeatAt(ses, x, b.p) g == FeatAt(ses, x, b.p + 1) IN
           Mat(ses.D, ses.D, LAMBDA l, r :
               Dot(f, Vec(ses.d, LAMBDA i : Dot(b.t[l][r][i], g))))
      [] b.kind = "out" -> b.t
      [] OTHER ->
           LET f == FeatAt(ses, x, IF b.kind = "ol" THEN b.p + 1 ELSE b.p) IN
           Vec(ses.O, LAMBDA o : Mat(ses.D, ses.D, LAMBDA l, r : Dot(b.t[o][l][r], f)))

HasOut(b) == b.kind \in {"out", "ol", "or"}

OutBlock(bs) == CHOOSE j \in 1..Len(bs) : HasOut(bs[j])

Prod(ses, ms) == Mats(ms, ses.D)

\* Matrix with which block j has to be multiplied under the trace
Boundary(ses) ==
    IF ses.periodic THEN Eye(ses.D)
    ELSE Mat(ses.D, ses.D, LAMBDA i, j : IF i = 1 /\ j = 1 THEN 1 ELSE 0)

RowVals(ses, bs, x) ==
    LET j == OutBlock(bs)
        left == Prod(ses, Vec(j - 1, LAMBDA n : BlockMat(ses, bs[n], x)))
        right == Prod(ses, Vec(Len(bs) - j, LAMBDA n : BlockMat(ses, bs[j + n], x)))
        env == MatMul(right, MatMul(Boundary(ses), left))
        ms == BlockMat(ses, bs[j], x)
        \* trace(M * env)
    IN  Vec(ses.O, LAMBDA o : Sum(Vec(ses.D, LAMBDA l :
            Sum(Vec(ses.D, LAMBDA r : (ms[o][l][r] * env[r][l]) % P)))))

(***************************************************************************)
(* Gradient of sum_o w[o] * out[o] with respect to block j                 *)
(***************************************************************************)
GradBlock(ses, bs, j, x, w) ==
    LET o0 == OutBlock(bs)
        ms == Vec(Len(bs), LAMBDA n :
                 IF n = j THEN Eye(ses.D)
                 ELSE IF n = o0
                 THEN LET q == BlockMat(ses, bs[n], x) IN
                      Mat(ses.D, ses.D, LAMBDA l, r : Sum(Vec(ses.O, LAMBDA o : (w[o] * q[o][l][r]) % P)))
                 ELSE BlockMat(ses, bs[n], x))
        left == Prod(ses, SubSeq(ms, 1, j - 1))
        right == Prod(ses, SubSeq(ms, j + 1, Len(ms)))
        env == TLCEval(MatMul(right, MatMul(Boundary(ses), left)))
        b == bs[j]
        f(p) == FeatAt(ses, x, p)
    IN  CASE b.kind = "in" ->
               Mat(ses.D, ses.D, LAMBDA l, r :
                   Vec(ses.d, LAMBDA i : (env[r][l] * f(b.p)[i]) % P))
          [] b.kind = "pair" ->
               Mat(ses.D, ses.D, LAMBDA l, r : Vec(ses.d, LAMBDA i :
                   Vec(ses.d, LAMBDA h : (((env[r][l] * f(b.p)[i]) % P) * f(b.p + 1)[h]) % P)))
          [] b.kind = "out" ->
               Vec(ses.O, LAMBDA o : Mat(ses.D, ses.D, LAMBDA l, r : (w[o] * env[r][l]) % P))
          [] OTHER ->
               LET g == f(IF b.kind = "ol" THEN b.p + 1 ELSE b.p) IN
               Vec(ses.O, LAMBDA o : Mat(ses.D, ses.D, LAMBDA l, r :
                   Vec(ses.d, LAMBDA i : (((w[o] * env[r][l]) % P) * g[i]) % P)))

\* Sums of tensors of any nesting, c * b added to a
RECURSIVE Axpy(_, _, _)
Axpy(n, a, b) ==
    [i \in 1..Len(a) |-> IF n = 1 THEN (a[i] + b[i]) % P ELSE TLCEval(Axpy(n - 1, a[i], b[i]))]
RECURSIVE Scaled(_, _, _)
Scaled(n, c, a) ==
    [i \in 1..Len(a) |-> IF n = 1 THEN (c * a[i]) % P ELSE TLCEval(Scaled(n - 1, c, a[i]))]
Modes(b) == CASE b.kind \in {"in", "out"} -> 3 [] OTHER -> 4

RECURSIVE GradSum(_, _, _, _, _)
GradSum(ses, bs, j, rows, n) ==
    IF n = 1 THEN TLCEval(GradBlock(ses, bs, j, rows[1].x, rows[1].w))
    ELSE TLCEval(Axpy(Modes(bs[j]), GradSum(ses, bs, j, rows, n - 1),
                      TLCEval(GradBlock(ses, bs, j, rows[n].x, rows[n].w))))

(***************************************************************************)
(* Splitting of merged blocks                                              *)
(***************************************************************************)
\* Entry of the matrix of a block with row index (a, b), column index (c, e)
\*   pair (l, i), (r, j)    ol (o, l), (r, i)    or (o, r), (l, i)
RowDims(ses, b) == CASE b.kind = "pair" -> <<ses.D, ses.d>> [] OTHER -> <<ses.O, ses.D>>
ColDims(ses, b) == CASE b.kind = "pair" -> <<ses.D, ses.d>> [] OTHER -> <<ses.D, ses.d>>
Entry(b, a1, a2, c1, c2) ==
    CASE b.kind = "pair" -> b.t[a1][c1][a2][c2]
      [] b.kind = "ol" -> b.t[a1][a2][c1][c2]
      [] b.kind = "or" -> b.t[a1][c1][a2][c2]

MatrixOf(ses, b) ==
    LET rd == RowDims(ses, b) cd == ColDims(ses, b)
    IN  Mat(rd[1] * rd[2], cd[1] * cd[2], LAMBDA i, j :
            Entry(b, ((i - 1) \div rd[2]) + 1, ((i - 1) % rd[2]) + 1,
                     ((j - 1) \div cd[2]) + 1, ((j - 1) % cd[2]) + 1))

\* The block with another matrix
WithMatrix(ses, b, m) ==
    LET D == ses.D d == ses.d
    IN  [b EXCEPT !.t =
           CASE b.kind = "pair" ->
                  Mat(D, D, LAMBDA l, r : Mat(d, d, LAMBDA i, j :
                      m[((l - 1) * d) + i][((r - 1) * d) + j]))
             [] b.kind = "ol" ->
                  Vec(ses.O, LAMBDA o : Mat(D, D, LAMBDA l, r : Vec(d, LAMBDA i :
                      m[((o - 1) * D) + l][((r - 1) * d) + i])))
             [] b.kind = "or" ->
                  Vec(ses.O, LAMBDA o : Mat(D, D, LAMBDA l, r : Vec(d, LAMBDA i :
                      m[((o - 1) * D) + r][((l - 1) * d) + i])))]

\* Plain integers
RECURSIVE IDotR(_, _, _)
IDotR(u, v, n) == IF n = 0 THEN 0 ELSE IDotR(u, v, n - 1) + (u[n] * v[n])
IDot(u, v) == IDotR(u, v, Len(u))

Orthogonal(dec) ==
    \A i \in 1..Len(dec) :
        /\ dec[i].s > 0
        /\ IDot(dec[i].u, dec[i].u) = IDot(dec[1].u, dec[1].u)
        /\ IDot(dec[i].v, dec[i].v) = IDot(dec[1].v, dec[1].v)
        /\ \A j \in 1..(i - 1) : IDot(dec[i].u, dec[j].u) = 0 /\ IDot(dec[i].v, dec[j].v) = 0
        \* in descending order, and different
        /\ i > 1 => dec[i].s < dec[i - 1].s

Gauge(dec) == IDot(dec[1].u, dec[1].u) * IDot(dec[1].v, dec[1].v)
Root(n) == CHOOSE g \in 1..n : g * g = n
IsSquare(n) == \E g \in 1..n : g * g = n

FromDec(dec, rows, cols, keep) ==
    Mat(rows, cols, LAMBDA i, j :
        Sum(Vec(keep, LAMBDA n : (((dec[n].s * dec[n].u[i]) % P) * dec[n].v[j]) % P)))

\* Singular values of a block with a decomposition
Svs(dec) == LET g == Root(Gauge(dec)) IN Vec(Len(dec), LAMBDA i : dec[i].s * g)

MinI(a, b) == IF a < b THEN a ELSE b

\* How many of them are kept; cut2 is twice the cutoff
Kept(ses, cut2, dec) ==
    LET sv == Svs(dec)
    IN  MinI(ses.D, Len(SelectSeq(sv, LAMBDA v : 2 * v >= cut2)))

(***************************************************************************)
(* Rank modulo P, by Gaussian elimination                                  *)
(***************************************************************************)

RECURSIVE FastPow(_, _)
FastPow(b, e) ==
    IF e = 0 THEN 1
    ELSE LET h == FastPow(b, e \div 2) q == (h * h) % P
         IN  IF e % 2 = 1 THEN (q * b) % P ELSE q

RECURSIVE RankFrom(_, _, _)
RankFrom(m, col, rank) ==
    IF m = <<>> \/ col > Cols(m) THEN rank
    ELSE LET piv == {i \in 1..Len(m) : m[i][col] # 0}
         IN  IF piv = {} THEN RankFrom(m, col + 1, rank)
             ELSE LET i == CHOOSE i \in piv : TRUE
                      inv == FastPow(m[i][col], P - 2)
                      rest == TLCEval([n \in 1..(Len(m) - 1) |->
                                 LET row == m[IF n < i THEN n ELSE n + 1]
                                     c == (row[col] * inv) % P
                                 IN  TLCEval([j \in 1..Len(row) |-> (row[j] - ((c * m[i][j]) % P)) % P])])
                  IN  RankFrom(rest, col + 1, rank + 1)

Rank(m) == RankFrom(m, 1, 0)

(***************************************************************************)
(* Switches. The result has the new chain of blocks, and for every split   *)
(* bond what has to be reported.                                           *)
(***************************************************************************)
\* A block and its decomposition agree
GoodDec(ses, b, dec) ==
    /\ Orthogonal(dec)
    /\ IsSquare(Gauge(dec))
    /\ LET m == MatrixOf(ses, b)
       IN  m = FromDec(dec, Len(m), Cols(m), Len(dec))

SwitchedBlock(ses, x, j) ==
    LET b == x.blocks[j] dec == x.decs[j]
    IN  IF b.n = 1 \/ dec = <<>> THEN b
        ELSE LET rd == RowDims(ses, b) cd == ColDims(ses, b)
             IN  WithMatrix(ses, b, FromDec(dec, rd[1] * rd[2], cd[1] * cd[2], Kept(ses, x.cut2, dec)))

Switch(ses, x) ==
    [x EXCEPT !.off = 1 - @, !.cnt = @ - x.T, !.own = FALSE,
              !.decs = Vec(Len(x.blocks), LAMBDA j : <<>>),
              !.blocks = IF x.own THEN Vec(Len(x.blocks), LAMBDA j : SwitchedBlock(ses, x, j)) ELSE @]

Due(x) == x.cnt >= x.T

\* A switch which has to be refused, because nothing of some block remains
Hopeless(ses, x) ==
    /\ Due(x)
    /\ \E j \in 1..Len(x.blocks) :
         x.own /\ x.blocks[j].n = 2 /\ x.decs[j] # <<>> /\ Kept(ses, x.cut2, x.decs[j]) = 0

\* Is it known what the switch does to the function?
Known(ses, x) ==
    IF x.own
    THEN \A j \in 1..Len(x.blocks) :
           x.blocks[j].n = 2 =>
             IF x.decs[j] # <<>> THEN TRUE
             ELSE x.cut2 = 0 /\ Rank(MatrixOf(ses, x.blocks[j])) <= ses.D
    ELSE x.cut2 = 0

Merged(ses, x) == {b.p + 1 : b \in {bb \in Range(Pattern(ses.N, ses.label, x.off)) : bb.n = 2}}

\* Block of the pattern in use which contains bond q (between q - 1 and q) inside
BlockAt(x, q) == CHOOSE j \in 1..Len(x.blocks) : x.blocks[j].n = 2 /\ x.blocks[j].p + 1 = q

SumSq(v) == Sum(Vec(Len(v), LAMBDA i : (v[i] * v[i]) % P))

PadTo(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]

\* Report r of bond q after a switch of x
GoodReport(ses, x, q, r) ==
    /\ r.dim >= 1 /\ r.dim <= ses.D
    /\ r.desc /\ r.count = r.dim
    /\ IF ~x.own THEN TRUE
       ELSE LET j == BlockAt(x, q) dec == x.decs[j] m == MatrixOf(ses, x.blocks[j])
            IN  IF dec # <<>>
                THEN /\ r.dim = Kept(ses, x.cut2, dec)
                     /\ r.sv = PadTo(Svs(dec), ses.D)
                ELSE /\ r.dim = Rank(m)
                     /\ r.s2 = Sum(Vec(Len(m), LAMBDA i : SumSq(m[i])))

BadReports(ses, x, e, ix) == {i \in ix : ~GoodReport(ses, x, e.bonds[i].q, e.bonds[i])}

\* Rank of the function across a bond, for open boundaries and small models
RECURSIVE Words(_, _)
Words(n, d) == IF n = 0 THEN {<<>>} ELSE {<<i>> \o w : i \in 1..d, w \in Words(n - 1, d)}

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

FunctionRank(ses, bs, q) ==
    LET nl == IF q <= ses.label THEN q ELSE q - 1   \* inputs left of the bond
        lw == SetSeq(Words(nl, ses.d))
        rw == SetSeq(Words(ses.N - nl, ses.d))
        Row(l, r) == Vec(ses.N, LAMBDA n : Unit(ses.d, IF n <= nl THEN l[n] ELSE r[n - nl]))
        val == TLCEval([a \in 1..Len(lw) |-> TLCEval([b \in 1..Len(rw) |->
                 TLCEval(RowVals(ses, bs, Row(lw[a], rw[b])))])])
        outleft == ses.label < q
    IN  IF outleft
        THEN Rank(Mat(Len(lw) * ses.O, Len(rw), LAMBDA i, j :
                 val[((i - 1) \div ses.O) + 1][j][((i - 1) % ses.O) + 1]))
        ELSE Rank(Mat(Len(lw), Len(rw) * ses.O, LAMBDA i, j :
                 val[i][((j - 1) \div ses.O) + 1][((j - 1) % ses.O) + 1]))

SmallEnough(ses) == ~ses.periodic /\ ses.d <= 2 /\ ses.N <= 4

(***************************************************************************)
(* The instances                                                           *)
(***************************************************************************)
NoDecs(bs) == Vec(Len(bs), LAMBDA j : <<>>)

\* Reports of all bonds after the last call, as far as they are known
NoReports(ses) == Vec(ses.N + 2, LAMBDA i : "?")
Forget(ses, x) == [x EXCEPT !.seen = NoReports(ses)]

\* A model which hasn't been used, with cores of the given kind
Blocks(ses, off, ts) ==
    LET pat == Pattern(ses.N, ses.label, off)
    IN  Vec(Len(pat), LAMBDA j : [kind |-> pat[j].kind, p |-> pat[j].p, n |-> pat[j].n, t |-> ts[j]])

Fresh(ses) ==
    [off |-> 0, cnt |-> 0, T |-> ses.T, cut2 |-> ses.cut2, own |-> FALSE, fn |-> FALSE,
     seen |-> NoReports(ses),
     blocks |-> Blocks(ses, 0, Pattern(ses.N, ses.label, 0)),
     decs |-> NoDecs(Pattern(ses.N, ses.label, 0))]

Start(ses) == [i \in 1..ses.n |-> Fresh(ses)]

Step(ses, st0, e) ==
    IF e.op \in {"set", "call", "refused", "train", "config", "shapes", "copy", "assign"}
    THEN LET x == st0[e.m] IN
    CASE e.op = "set" ->
           LET bs == Blocks(ses, x.off, e.ts)
               y == [x EXCEPT !.blocks = bs, !.decs = e.decs, !.own = TRUE, !.fn = TRUE]
           IN  IF e.off # x.off THEN Ok(st0, "parameters of the wrong pattern were in use")
               ELSE IF \E j \in 1..Len(bs) : e.decs[j] # <<>> /\ ~GoodDec(ses, bs[j], e.decs[j])
               THEN Ok(st0, "the harness gave a wrong decomposition")
               ELSE Ok([st0 EXCEPT ![e.m] = y], "ok")
      [] e.op = "shapes" ->
           Ok(st0,
              IF \E o \in {0, 1} :
                   e.shapes[o + 1] # Shapes(Pattern(ses.N, ses.label, o), 1, ses.D, ses.d, ses.O)
              THEN "parameters of a merge pattern"
              ELSE IF e.cores # ses.N + 1 \/ e.len # ses.N THEN "number of cores or inputs" ELSE "ok")
      [] e.op = "call" ->
           LET due == Due(x)
               y == IF due THEN Switch(ses, x) ELSE x
               z == [y EXCEPT !.cnt = @ + e.size,
                              !.seen = IF e.natural THEN [i \in 1..Len(e.bonds) |-> e.bonds[i].raw]
                                       ELSE NoReports(ses)]
               want == IF due THEN Merged(ses, x) ELSE {}
               \* Either marked reports show which bonds were updated, or all
               \* reports are given: the others have to be as before
               all == e.natural
               ix == {i \in 1..Len(e.bonds) : all => e.bonds[i].q \in want}
               got == {e.bonds[i].q : i \in ix}
           IN  IF due /\ x.fn /\ ~Known(ses, x)
               THEN Ok(st0, "the harness didn't know the effect of a switch")
               ELSE IF got # want
               THEN Ok(st0, IF want = {} THEN "bond dimensions changed without a switch"
                            ELSE IF got = {} THEN "no bond dimensions were reported after a switch"
                            ELSE "bond dimensions of the wrong bonds were reported")
               ELSE IF all /\ \E i \in (1..Len(e.bonds)) \ ix :
                         x.seen[i] # "?" /\ x.seen[i] # e.bonds[i].raw
               THEN Ok(st0, "reported bond dimension or singular values of another bond changed")
               ELSE IF BadReports(ses, x, e, ix) # {}
               THEN Ok(st0, "reported bond dimension or singular values")
               ELSE IF e.used # (-1) /\ e.used # z.off
               THEN Ok(st0, "parameters of the wrong pattern got gradients")
               ELSE IF e.shape # <<e.size, ses.O>> THEN Ok(st0, "shape of the output")
               ELSE IF x.fn /\ \E i \in 1..Len(e.rows) : e.rows[i].y # RowVals(ses, z.blocks, e.rows[i].x)
               THEN Ok(st0, IF due THEN "output after a switch" ELSE "output")
               ELSE IF due /\ x.fn /\ SmallEnough(ses)
                       /\ \E i \in ix :
                            e.bonds[i].dim < FunctionRank(ses, z.blocks, e.bonds[i].q)
               THEN Ok(st0, "rank of the function exceeds the reported bond dimension")
               ELSE Ok([st0 EXCEPT ![e.m] = z], "ok")
      [] e.op = "refused" ->
           \* A call which raised an error
           IF Hopeless(ses, x) \/ e.wrong THEN Ok(st0, "ok")
           ELSE Ok(st0, "a valid call was refused")
      [] e.op = "train" ->
           \* A step of gradient descent on the combination w of the outputs
           \* of the last call, with learning rate 1
           IF ~x.own THEN Ok(st0, "the harness trained unknown parameters")
           ELSE LET g == Vec(Len(x.blocks), LAMBDA j : GradSum(ses, x.blocks, j, e.rows, Len(e.rows)))
                    bs == Vec(Len(x.blocks), LAMBDA j :
                             [x.blocks[j] EXCEPT !.t =
                                 Axpy(Modes(x.blocks[j]), @, Scaled(Modes(x.blocks[j]), P - 1, g[j]))])
                IN  IF e.grads # <<>> /\ e.grads # g THEN Ok(st0, "gradient of a parameter")
                    ELSE Ok([st0 EXCEPT ![e.m] = [x EXCEPT !.blocks = bs, !.decs = NoDecs(bs)]], "ok")
      [] e.op = "config" ->
           Ok([st0 EXCEPT ![e.m] = [x EXCEPT !.cut2 = e.cut2]], "ok")
      [] e.op = "copy" -> Ok(Append(st0, Forget(ses, x)), "ok")
      [] e.op = "assign" ->
           Ok([st0 EXCEPT ![e.m] = [st0[e.from] EXCEPT !.T = x.T, !.cut2 = x.cut2, !.seen = x.seen]], "ok")
    ELSE CASE e.op = "new" -> Ok(Append(st0, Fresh(ses)), "ok")
           [] e.op = "fact" -> Ok(st0, IF e.holds THEN "ok" ELSE e.what)
           [] OTHER -> Ok(st0, "unknown event")

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
