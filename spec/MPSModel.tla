----------------------------- MODULE MPSModel -----------------------------
(***************************************************************************)
(* What a supervised MPS computes (properties C01, C02, C03, C10, C11...): *)
(* the contraction of its cores. A model is a record with                  *)
(*   cores    sequence of input cores, core[l][r][i]                       *)
(*   biasL    bias matrix of the sites left of the output, <<>> if unused  *)
(*   biasR    bias matrix of the sites right of the output                 *)
(*   outcore  output core, outcore[o][l][r]                                *)
(*   label    number of sites left of the output core                      *)
(*   periodic whether the chain is closed by a trace                       *)
(***************************************************************************)
EXTENDS LinAlg

\* Default embedding of a raw datum
DefaultEmbed(x) == <<Md(x), Md(1 - x)>>

\* The matrix of a site: core contracted with the feature vector, plus bias
SiteMat(core, feat, bias) ==
    IF bias = <<>>
    THEN Mat(Len(core), Cols(core), LAMBDA l, r : Dot(core[l][r], feat))
    ELSE Mat(Len(core), Cols(core),
             LAMBDA l, r : (Dot(core[l][r], feat) + bias[l][r]) % P)

SiteMats(m, feats) ==
    Vec(Len(m.cores), LAMBDA n :
        SiteMat(m.cores[n], feats[n],
                IF n <= m.label THEN m.biasL ELSE m.biasR))

BondDim(m) == Len(m.outcore[1])

\* Output vector given the matrices of all sites
OutputOf(m, mats) ==
    LET N == Len(m.cores)
        D == BondDim(m)
        lmats == SubSeq(mats, 1, m.label)
        rmats == SubSeq(mats, m.label + 1, N)
    IN  IF m.periodic
        THEN LET T == Transp(MatMul(Mats(rmats, D), Mats(lmats, D)))
             IN  Vec(Len(m.outcore), LAMBDA o :
                     Sum(Vec(D, LAMBDA l : Dot(m.outcore[o][l], T[l]))))
        ELSE LET u == VecMats(Unit(D, 1), lmats)
                 w == MatsVec(rmats, Unit(D, 1))
             IN  Vec(Len(m.outcore), LAMBDA o : Dot(u, MatVec(m.outcore[o], w)))

Output(m, feats) == OutputOf(m, SiteMats(m, feats))

(***************************************************************************)
(* The same thing defined as a sum over all assignments of the bonds, with *)
(* no order of evaluation at all. Used to check the definitions above and  *)
(* the contraction algorithms on small models.                             *)
(***************************************************************************)
RECURSIVE SumOver(_, _)
SumOver(S, f) ==
    IF S = {} THEN 0
    ELSE LET x == CHOOSE x \in S : TRUE
         IN  (f[x] + SumOver(S \ {x}, f)) % P

RECURSIVE ProdR(_, _)
ProdR(u, n) == IF n = 0 THEN 1 ELSE (ProdR(u, n - 1) * u[n]) % P

\* Bonds 0..N+1, the output core sits between the bonds label and label+1
PathSum(m, mats, o) ==
    LET N == Len(m.cores)
        D == BondDim(m)
        Paths == {b \in [0..(N + 1) -> 1..D] :
                    IF m.periodic THEN b[0] = b[N + 1]
                    ELSE b[0] = 1 /\ b[N + 1] = 1}
        Factor(b, n) ==
            IF n <= m.label THEN mats[n][b[n - 1]][b[n]]
            ELSE IF n = m.label + 1 THEN m.outcore[o][b[n - 1]][b[n]]
            ELSE mats[n - 1][b[n - 1]][b[n]]
        Weight == [b \in Paths |->
                     ProdR([n \in 1..(N + 1) |-> Factor(b, n)], N + 1)]
    IN  SumOver(Paths, Weight)
=============================================================================
