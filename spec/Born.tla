------------------------------- MODULE Born -------------------------------
(***************************************************************************)
(* Probabilistic MPS models (properties C06 - C09, C19): amplitudes,       *)
(* normalisation and their derivatives. A model is a record with           *)
(*   cores    sequence of core tensors, core[i][l][r]; just one core,      *)
(*            used at all positions, if uniform                            *)
(*   uniform  whether the model is uniform                                 *)
(*   left, right   edge vectors                                            *)
(*   bias     bias matrix, <<>> if unused                                  *)
(* Inputs are sequences of feature vectors. A domain is a sequence of the  *)
(* feature vectors of all values of a (discrete) datum.                    *)
(***************************************************************************)
EXTENDS Gauss

Core(m, t) == IF m.uniform THEN m.cores[1] ELSE m.cores[t]
NumFeatures(m) == Len(m.cores[1])
Bond(m) == Len(m.left)

OneHot(n, i) == CUnit(n, i + 1)

\* Sum over i of feat[i] * core[i]
Contract(core, feat) ==
    Mat(Len(core[1]), Cols(core[1]), LAMBDA l, r :
        CDot(feat, [i \in 1..Len(feat) |-> core[i][l][r]]))

Slice(m, t, feat) ==
    LET A == Contract(Core(m, t), feat)
    IN  IF m.bias = <<>> THEN A ELSE CMatAdd(A, m.bias)

\* The feature vector of a symbol selects a slice of the core
SymbolSlice(m, t, x) ==
    IF m.bias = <<>> THEN Core(m, t)[x + 1] ELSE CMatAdd(Core(m, t)[x + 1], m.bias)

SymbolSlices(m, x) == Vec(Len(x), LAMBDA t : SymbolSlice(m, t, x[t]))

Slices(m, feats) == Vec(Len(feats), LAMBDA t : Slice(m, t, feats[t]))

AmplitudeOf(m, mats) == CDot(CVecMats(m.left, mats), m.right)
Amplitude(m, feats) == AmplitudeOf(m, Slices(m, feats))

Weight(m, feats) == CAbs2(Amplitude(m, feats))

(***************************************************************************)
(* Normalisation: by definition, and by the transfer operator, which takes *)
(* a density matrix D to the sum over i, j of Lambda[i][j] A_i^T D A_j^*   *)
(* (the design of the code). Their equality is checked on small models.    *)
(***************************************************************************)
RECURSIVE AllSeqs(_, _)
AllSeqs(S, n) ==
    IF n = 0 THEN {<<>>}
    ELSE {<<x>> \o q : x \in S, q \in AllSeqs(S, n - 1)}

RECURSIVE AddUp(_, _)
AddUp(S, f) ==
    IF S = {} THEN 0
    ELSE LET x == CHOOSE x \in S : TRUE IN (f[x] + AddUp(S \ {x}, f)) % P

ZBySum(m, domain, n) ==
    LET All == AllSeqs(1..Len(domain), n)
    IN  AddUp(All, TLCEval([q \in All |->
                Weight(m, [t \in 1..n |-> domain[q[t]]])]))

Gram(domain) ==
    LET d == Len(domain[1])
    IN  Mat(d, d, LAMBDA i, j :
            CSum([x \in 1..Len(domain) |->
                    CMul(domain[x][i], CConj(domain[x][j]))]))

GramEye(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN C1 ELSE C0)

RECURSIVE MatSum(_)
MatSum(Ms) == IF Len(Ms) = 1 THEN Ms[1] ELSE CMatAdd(Head(Ms), MatSum(Tail(Ms)))

\* A bias is added to every slice: in terms of the amplitude, each datum
\* contributes sum_i feat[i] A_i + bias
TransferTerm(Ai, D, Aj) == CMatMul(CMatMul(Transp(Ai), D), CMatConj(Aj))

\* The bias acts like another slice of the core, whose feature is always one
WithBias(m, t) ==
    IF m.bias = <<>> THEN Core(m, t) ELSE Core(m, t) \o <<m.bias>>

ExtDomain(m, domain) ==
    IF m.bias = <<>> THEN domain
    ELSE Vec(Len(domain), LAMBDA x : domain[x] \o <<C1>>)

\* Without an embedding one can add the bias to every slice instead
BiasedCore(m, t) ==
    IF m.bias = <<>> THEN Core(m, t)
    ELSE Vec(NumFeatures(m), LAMBDA i : CMatAdd(Core(m, t)[i], m.bias))

Transfer(core, D, lam) ==
    LET d == Len(core)
        Pairs == {p \in (1..d) \X (1..d) : lam[p[1]][p[2]] # C0}
        RECURSIVE Go(_)
        Go(S) == IF S = {} THEN Mat(Len(D), Len(D), LAMBDA i, j : C0)
                 ELSE LET p == CHOOSE p \in S : TRUE
                      IN  CMatAdd(CMatScale(lam[p[1]][p[2]],
                                            TransferTerm(core[p[1]], D, core[p[2]])),
                                  Go(S \ {p}))
    IN  Go(Pairs)

RECURSIVE Density(_, _, _, _)
Density(cores, lams, t, D) ==
    IF t = 0 THEN D ELSE Transfer(cores[t], Density(cores, lams, t - 1, D), lams[t])

\* cores, lams: what the transfer operator uses at every position
ZByTransferLams(m, cores, lams) ==
    LET D0 == Mat(Bond(m), Bond(m), LAMBDA i, j : CMul(m.left[i], CConj(m.left[j])))
        D == Density(cores, lams, Len(cores), D0)
        v == Vec(Bond(m), LAMBDA q :
                CSum([r \in 1..Bond(m) |-> CMul(m.right[r], D[r][q])]))
        z == CSum([q \in 1..Bond(m) |-> CMul(v[q], CConj(m.right[q]))])
    IN  IF z[2] = 0 THEN z[1] ELSE -2   \* has to be real

ZByTransferOf(m, cores, lam) ==
    ZByTransferLams(m, cores, TLCEval([t \in 1..Len(cores) |-> lam]))

\* lam is the Gram matrix of the extended domain
ZByTransfer(m, lam, n) ==
    ZByTransferOf(m, TLCEval([t \in 1..n |-> WithBias(m, t)]), lam)

Alphabet(m) == Vec(NumFeatures(m), LAMBDA i : OneHot(NumFeatures(m), i - 1))

RECURSIVE IntPow(_, _)
IntPow(b, e) == IF e = 0 THEN 1 ELSE b * IntPow(b, e - 1)

\* Z for sequences of length n over a domain
Z(m, domain, n) ==
    IF n <= 6 /\ IntPow(Len(domain), n) <= 40
    THEN ZBySum(m, domain, n)
    ELSE ZByTransfer(m, Gram(ExtDomain(m, domain)), n)

\* The same for symbols, where the Gram matrix is the identity and the slices
\* are shifted by the bias
RECURSIVE SumTerms(_, _, _, _)
SumTerms(core, D, i, j) ==
    IF i = j THEN TransferTerm(core[i], D, core[i])
    ELSE LET h == (i + j) \div 2
         IN  CMatAdd(SumTerms(core, D, i, h), SumTerms(core, D, h + 1, j))

ZOfSymbols(m, n) ==
    LET D0 == Mat(Bond(m), Bond(m), LAMBDA i, j : CMul(m.left[i], CConj(m.left[j])))
        RECURSIVE Go(_)
        Go(t) == IF t = 0 THEN D0
                 ELSE LET D == TLCEval(Go(t - 1))
                      IN  SumTerms(TLCEval(BiasedCore(m, t)), D, 1, NumFeatures(m))
        E == TLCEval(Go(n))
        z == CSum([p \in 1..(Bond(m) * Bond(m)) |->
                LET r == ((p - 1) \div Bond(m)) + 1
                    q == ((p - 1) % Bond(m)) + 1
                IN  CMul(m.right[r], CMul(E[r][q], CConj(m.right[q])))])
    IN  IF z[2] = 0 THEN z[1] ELSE -2

(***************************************************************************)
(* Derivatives. The amplitude is linear in the matrix of every site, so    *)
(* its derivative in the direction of a parameter is the sum over the      *)
(* sites of the amplitude with that site's matrix replaced. Parameters are *)
(* named by tuples                                                         *)
(*   <<"core", t, i, l, r>>   <<"bias", l, r>>   <<"left", l>>             *)
(*   <<"right", l>>           <<"emb", v, i>>   (entry of the domain)      *)
(*   <<"x", t, i>>            (entry of the feature vectors)               *)
(* idx is the sequence of values of an embedded input, <<>> without one.   *)
(***************************************************************************)
ReplacedAt(m, mats, t, X) == AmplitudeOf(m, [mats EXCEPT ![t] = X])

DAmplitude(m, feats, idx, par) ==
    LET mats == TLCEval(Slices(m, feats))
        n == Len(feats)
        D == Bond(m)
    IN  CASE par[1] = "core" ->
               LET Sites == IF m.uniform THEN 1..n ELSE {par[2]}
               IN  CSum([t \in 1..n |->
                     IF t \notin Sites THEN C0
                     ELSE CMul(feats[t][par[3]],
                               ReplacedAt(m, mats, t, CElem(D, D, par[4], par[5])))])
          [] par[1] = "bias" ->
               CSum([t \in 1..n |-> ReplacedAt(m, mats, t, CElem(D, D, par[2], par[3]))])
          [] par[1] = "left" ->
               AmplitudeOf([m EXCEPT !.left = CUnit(D, par[2])], mats)
          [] par[1] = "right" ->
               AmplitudeOf([m EXCEPT !.right = CUnit(D, par[2])], mats)
          [] par[1] = "emb" ->
               CSum([t \in 1..n |->
                     IF idx[t] # par[2] THEN C0
                     ELSE ReplacedAt(m, mats, t, Core(m, t)[par[3]])])
          [] par[1] = "x" -> ReplacedAt(m, mats, par[2], Core(m, par[2])[par[3]])

\* Sum over all sequences of conj(amplitude) * derivative of the amplitude
DNormBySum(m, domain, n, par) ==
    LET All == AllSeqs(1..Len(domain), n)
        RECURSIVE Go(_)
        Go(S) == IF S = {} THEN C0
                 ELSE LET q == CHOOSE q \in S : TRUE
                          f == TLCEval([t \in 1..n |-> domain[q[t]]])
                      IN  CAdd(CMul(CConj(Amplitude(m, f)), DAmplitude(m, f, q, par)),
                               Go(S \ {q}))
    IN  Go(All)

\* The same by the transfer operator: prefixes, suffixes, and the derivative
\* of one transfer (or of the Gram matrix, or of an edge) between them
DensityOf(u, v) == Mat(Len(u), Len(v), LAMBDA i, j : CMul(u[i], CConj(v[j])))
Paired(A, B) == CSum(Vec(Len(A), LAMBDA i : CDot(A[i], B[i])))

RECURSIVE SumMats(_, _, _)
SumMats(f, i, j) ==
    IF i = j THEN f[i]
    ELSE LET h == (i + j) \div 2 IN CMatAdd(SumMats(f, i, h), SumMats(f, h + 1, j))

\* Adjoint of the transfer operator
Back(core, S, lam) ==
    LET K == Len(core)
        f == TLCEval([p \in 1..(K * K) |->
                LET i == ((p - 1) \div K) + 1
                    j == ((p - 1) % K) + 1
                IN  CMatScale(lam[i][j],
                        CMatMul(CMatMul(core[i], S), CMatConj(Transp(core[j]))))])
    IN  SumMats(f, 1, K * K)

DNormByTransfer(m, domain, n, par) ==
    LET D == Bond(m)
        cores == TLCEval([t \in 1..n |-> WithBias(m, t)])
        ext == TLCEval(ExtDomain(m, domain))
        lam == TLCEval(Gram(ext))
        K == Len(lam)
        RECURSIVE Pre(_)
        Pre(t) == IF t = 0 THEN <<DensityOf(m.left, m.left)>>
                  ELSE LET p == TLCEval(Pre(t - 1))
                       IN  Append(p, TLCEval(Transfer(cores[t], p[t], lam)))
        RECURSIVE Suf(_)
        Suf(t) == IF t = n + 1 THEN <<DensityOf(m.right, m.right)>>
                  ELSE LET q == TLCEval(Suf(t + 1))
                       IN  <<TLCEval(Back(cores[t], q[1], lam))>> \o q
        pre == TLCEval(Pre(n))
        suf == TLCEval(Suf(1))
        \* Entry l, r of slice i of the core at site t
        AtSite(t, i, l, r) ==
            LET f == TLCEval([j \in 1..K |->
                        CMatScale(lam[i][j], TransferTerm(CElem(D, D, l, r), pre[t], cores[t][j]))])
            IN  Paired(SumMats(f, 1, K), suf[t + 1])
    IN  CASE par[1] = "left" -> Paired(DensityOf(CUnit(D, par[2]), m.left), suf[1])
          [] par[1] = "right" -> Paired(pre[n + 1], DensityOf(CUnit(D, par[2]), m.right))
          [] par[1] = "core" ->
               CSum([t \in 1..n |->
                   IF m.uniform \/ t = par[2] THEN AtSite(t, par[3], par[4], par[5]) ELSE C0])
          [] par[1] = "bias" -> CSum([t \in 1..n |-> AtSite(t, K, par[2], par[3])])
          [] par[1] = "emb" ->
               LET dlam == Mat(K, K, LAMBDA i, j :
                              IF i = par[3] THEN CConj(ext[par[2]][j]) ELSE C0)
               IN  CSum([t \in 1..n |-> Paired(Transfer(cores[t], pre[t], dlam), suf[t + 1])])

DNorm(m, domain, n, par) ==
    IF par[1] = "x" THEN C0
    ELSE IF n <= 6 /\ IntPow(Len(domain), n) <= 40 THEN DNormBySum(m, domain, n, par)
    ELSE DNormByTransfer(m, domain, n, par)

(***************************************************************************)
(* With derivative d of the amplitude a and s = DNorm, the gradient g of   *)
(* the sum of log(|a|^2 / Z) over the rows of a batch satisfies            *)
(*   conj(g) * Z * W = sum over rows of (2 d conj(a) Z - 2 s |a|^2) * W'   *)
(* where W is the product of |a|^2 over all rows, and W' that over the     *)
(* other rows. (Convention for complex parameters: derivative to the real  *)
(* part + i * derivative to the imaginary part.)                           *)
(***************************************************************************)
RowTerm(a, z, d, s2) ==
    CSub(CScale((2 * z) % P, CMul(d, CConj(a))), CScale(CAbs2(a), s2))

RECURSIVE ProdInt(_)
ProdInt(u) == IF u = <<>> THEN 1 ELSE (Head(u) * ProdInt(Tail(u))) % P

\* rows: sequence of [feats, idx]; d: derivatives of the amplitudes; s2: 2 s
GradFrom(m, rows, z, d, s2) ==
    LET amp == TLCEval([b \in 1..Len(rows) |-> Amplitude(m, rows[b].feats)])
    IN  CSum([b \in 1..Len(rows) |->
            CScale(ProdInt([c \in 1..Len(rows) |-> IF c = b THEN 1 ELSE CAbs2(amp[c])]),
                   RowTerm(amp[b], z, d[b], s2))])

GradTimesDen(m, domain, n, rows, z, par) ==
    GradFrom(m, rows, z,
             TLCEval([b \in 1..Len(rows) |->
                        DAmplitude(m, rows[b].feats, rows[b].idx, par)]),
             TLCEval(CScale(2, DNorm(m, domain, n, par))))
=============================================================================
