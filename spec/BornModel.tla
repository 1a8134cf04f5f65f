----------------------------- MODULE BornModel -----------------------------
(***************************************************************************)
(* Exhaustive check of the design of the probabilistic models on all small *)
(* models: the transfer operator computes the sum over all sequences, with *)
(* every kind of Gram matrix (multiple of the identity, diagonal, full),   *)
(* also through the reduced representations, and the classification of a   *)
(* Gram matrix as scalar / diagonal / full loses nothing.                  *)
(***************************************************************************)
EXTENDS Born

CONSTANTS Vals, MaxN, Dim, Domains, Variant

VARIABLES m, dom, n, done
vars == <<m, dom, n, done>>

CVals == {<<Md(v[1]), Md(v[2])>> : v \in Vals}

\* Cores: D = 1 or 2 with two letters; entries from Vals, off-diagonal entries
\* of the second slice zero, to keep the number of models small
CoreSet ==
    IF Dim = 1
    THEN {<< <<<<a>>>>, <<<<b>>>> >> : a, b \in CVals}
    ELSE {<< <<<<a, b>>, <<C0, a>>>>, <<<<b, C0>>, <<a, C1>>>> >> : a, b \in CVals}

Edges == IF Dim = 1 THEN {<<a>> : a \in CVals} ELSE {<<a, C1>> : a \in CVals}

Init ==
    /\ n \in 0..MaxN
    /\ \E u \in BOOLEAN, l, r \in Edges, b \in {0, 1} :
         \E cs \in [1..(IF u THEN 1 ELSE MaxN) -> CoreSet] :
           m = [cores |-> cs, uniform |-> u, left |-> l, right |-> r,
                bias |-> IF b = 0 THEN <<>>
                         ELSE Mat(Dim, Dim, LAMBDA i, j : IF i = j THEN <<Md(-1), 1>> ELSE C1)]
    /\ dom \in Domains
    /\ done = FALSE

Dom == Vec(Len(dom), LAMBDA x : Vec(2, LAMBDA i : <<Md(dom[x][i][1]), Md(dom[x][i][2])>>))

Classify(g) ==
    LET d == Len(g)
        isdiag == \A i, j \in 1..d : i # j => g[i][j] = C0
        isscal == isdiag /\ \A i \in 1..d : g[i][i] = g[1][1]
    IN  IF isscal THEN "scalar" ELSE IF isdiag THEN "diagonal" ELSE "full"

\* The matrix which the reduced representation stands for
Restore(g) ==
    LET k == IF Variant = "lossy" /\ Classify(g) = "full" THEN "diagonal" ELSE Classify(g)
    IN  CASE k = "scalar" -> CMatScale(g[1][1], GramEye(Len(g)))
          [] k = "diagonal" -> Mat(Len(g), Len(g), LAMBDA i, j : IF i = j THEN g[i][i] ELSE C0)
          [] k = "full" -> g

\* With an embedding: the bias is a slice of its own
TransferIsSum ==
    LET z == ZBySum(m, Dom, n)
    IN  IF Variant = "shifted"
        THEN ZByTransferOf(m, [t \in 1..n |-> BiasedCore(m, t)], Gram(Dom)) = z
        ELSE ZByTransfer(m, Restore(Gram(ExtDomain(m, Dom))), n) = z

\* Without embedding: every slice is shifted by the bias
ShiftIsSum ==
    /\ \A t \in 1..n, x \in {0, 1} : SymbolSlice(m, t, x) = Slice(m, t, OneHot(2, x))
    /\ ZOfSymbols(m, n) = ZBySum(m, Alphabet(m), n)
    /\ ZByTransferOf(m, [t \in 1..n |-> BiasedCore(m, t)], GramEye(2))
            = ZBySum(m, Alphabet(m), n)

\* Derivatives of the normalisation
Params ==
    {<<"left", 1>>, <<"right", Dim>>, <<"core", 1, 1, 1, Dim>>, <<"core", n, 2, Dim, 1>>,
     <<"emb", 1, 1>>, <<"emb", Len(dom), 2>>}
    \cup (IF m.bias = <<>> THEN {} ELSE {<<"bias", 1, Dim>>})

SlopeIsSum ==
    n = 0 \/ \A p \in Params :
        \* Broken: a uniform core counts once
        DNormByTransfer(IF Variant = "onesite" THEN [m EXCEPT !.uniform = FALSE,
                            !.cores = [t \in 1..n |-> Core(m, t)]] ELSE m,
                        TLCEval(Dom), n, p) = DNormBySum(m, TLCEval(Dom), n, p)

\* It is the derivative: Z is quadratic in the entries of one site
Moved(p, z) ==
    CASE p[1] = "core" -> [m EXCEPT !.cores[p[2]][p[3]][p[4]][p[5]] = CAdd(@, z)]
      [] p[1] = "left" -> [m EXCEPT !.left[p[2]] = CAdd(@, z)]
      [] p[1] = "right" -> [m EXCEPT !.right[p[2]] = CAdd(@, z)]

SlopeIsDifference ==
    n = 0 \/ \A p \in {q \in Params : q[1] \in {"left", "right"} \/ (q[1] = "core" /\ (~m.uniform \/ n = 1))} :
        LET s == DNormBySum(m, TLCEval(Dom), n, p)
            Diff(z) == (ZBySum(TLCEval(Moved(p, z)), TLCEval(Dom), n)
                        - ZBySum(TLCEval(Moved(p, CMul(<<Md(-1), 0>>, z))), TLCEval(Dom), n)) % P
        IN  /\ Diff(C1) = (4 * s[1]) % P
            /\ Diff(<<0, 1>>) = (0 - (4 * s[2])) % P

Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<m, dom, n>>
=============================================================================
