------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* Supervised MPS and sequence MPS together, with routing, feature maps,   *)
(* and the exact derivatives of what they compute (C01-C03, C15, C16, C19, *)
(* C20). A model is a record                                               *)
(*   type     "sup" (MPS) or "ti" (TI_MPS)                                 *)
(*   cores, biasL, biasR, outcore, label, periodic   as in MPSModel (for   *)
(*            "ti": the only core is cores[1], the bias matrix biasL)      *)
(*   init, term   (only "ti") initial vector, terminal matrix [l][o]       *)
(*   path     positions of the input, counted from 0 (<<>>: all, in order) *)
(*   fmap     <<>> for the default feature map x -> [x, 1-x], or the       *)
(*            coefficients of a polynomial for each feature                *)
(***************************************************************************)
EXTENDS MPSModel

RECURSIVE Horner(_, _, _)
Horner(cs, x, k) == IF k > Len(cs) THEN 0 ELSE (cs[k] + x * Horner(cs, x, k + 1)) % P

Feature(m, x) ==
    IF m.fmap = <<>> THEN DefaultEmbed(x)
    ELSE Vec(Len(m.fmap), LAMBDA i : Horner(m.fmap[i], x, 1))

Route(m, x) ==
    IF m.path = <<>> THEN x ELSE Vec(Len(m.path), LAMBDA n : x[m.path[n] + 1])

\* Feature vectors of the sites for one (raw or embedded) row of the input
FeatsOf(m, raw, x) ==
    LET y == Route(m, x)
    IN  IF raw THEN Vec(Len(y), LAMBDA n : Feature(m, y[n])) ELSE y

ChainMats(m, feats) ==
    IF m.type = "ti"
    THEN Vec(Len(feats), LAMBDA n : SiteMat(m.cores[1], feats[n], m.biasL))
    ELSE SiteMats(m, feats)

ChainOut(m, mats) ==
    IF m.type = "ti" THEN VecMat(VecMats(m.init, mats), m.term)
    ELSE OutputOf(m, mats)

OutOf(m, raw, x) == ChainOut(m, ChainMats(m, FeatsOf(m, raw, x)))

(***************************************************************************)
(* Derivatives of the combination w of the outputs. The output is linear   *)
(* in the matrix of each site, so that the derivative in the direction X   *)
(* of the n'th matrix is the output with X as the n'th matrix. Parameters: *)
(*   <<"core", n, l, r, i>>  (n = 1 for "ti")                              *)
(*   <<"biasL", l, r>> <<"biasR", l, r>> <<"out", o, l, r>>                *)
(*   <<"init", l>> <<"term", l, o>> <<"fmap", i, k>>                       *)
(*   <<"x", position, i>> of an embedded input, <<"raw", position>> of a   *)
(*   raw one, as entries of the row given by the caller                    *)
(***************************************************************************)
Elem(p, q, a, b, c) == Mat(p, q, LAMBDA i, j : IF i = a /\ j = b THEN c ELSE 0)

CoreOf(m, n) == IF m.type = "ti" THEN m.cores[1] ELSE m.cores[n]

\* Slice of a core
SliceOf(core, i) == Mat(Len(core), Cols(core), LAMBDA l, r : core[l][r][i])

\* Derivative of a feature to the raw datum
RECURSIVE DHorner(_, _, _)
DHorner(cs, x, k) ==
    IF k > Len(cs) THEN 0
    ELSE ((((k - 1) * cs[k]) % P) * (IF k >= 2 THEN Pow(x, k - 2) ELSE 0)
          + DHorner(cs, x, k + 1)) % P

DFeature(m, x) ==
    IF m.fmap = <<>> THEN <<1, Md(-1)>>
    ELSE Vec(Len(m.fmap), LAMBDA i : DHorner(m.fmap[i], x, 1))

\* Same as SiteMat without bias
Contracted(core, feat) == SiteMat(core, feat, <<>>)

DOut(m, raw, x, w, par) ==
    LET feats == TLCEval(FeatsOf(m, raw, x))
        mats == TLCEval(ChainMats(m, feats))
        N == Len(feats)
        D == Len(m.cores[1])
        With(n, X) == Dot(w, ChainOut(m, [mats EXCEPT ![n] = X]))
        \* Sites for which position p of the row is used
        SitesOf(p) == {n \in 1..N : (IF m.path = <<>> THEN n ELSE m.path[n] + 1) = p}
        Over(S, F(_)) == Sum(Vec(N, LAMBDA n : IF n \in S THEN F(n) ELSE 0))
        y == Route(m, x)
    IN  CASE par[1] = "core" ->
               Over(IF m.type = "ti" THEN 1..N ELSE {par[2]},
                    LAMBDA n : With(n, Elem(D, D, par[3], par[4], feats[n][par[5]])))
          [] par[1] = "biasL" ->
               Over(IF m.type = "ti" THEN 1..N ELSE 1..m.label,
                    LAMBDA n : With(n, Elem(D, D, par[2], par[3], 1)))
          [] par[1] = "biasR" ->
               Over((m.label + 1)..N, LAMBDA n : With(n, Elem(D, D, par[2], par[3], 1)))
          [] par[1] = "out" ->
               Dot(w, ChainOut([m EXCEPT !.outcore =
                   Vec(Len(m.outcore), LAMBDA o :
                       IF o = par[2] THEN Elem(D, D, par[3], par[4], 1) ELSE Zeros(D, D))], mats))
          [] par[1] = "init" -> Dot(w, ChainOut([m EXCEPT !.init = Unit(D, par[2])], mats))
          [] par[1] = "term" ->
               Dot(w, ChainOut([m EXCEPT !.term = Elem(D, Len(w), par[2], par[3], 1)], mats))
          [] par[1] = "fmap" ->
               Over(1..N, LAMBDA n :
                   (With(n, SliceOf(CoreOf(m, n), par[2])) * Pow(y[n], par[3] - 1)) % P)
          [] par[1] = "x" ->
               Over(SitesOf(par[2]), LAMBDA n : With(n, SliceOf(CoreOf(m, n), par[3])))
          [] par[1] = "raw" ->
               Over(SitesOf(par[2]), LAMBDA n :
                   With(n, Contracted(CoreOf(m, n), DFeature(m, y[n]))))
=============================================================================
