------------------------------- MODULE J_Born -------------------------------
(***************************************************************************)
(* Trace validation for the probabilistic models (C06, C07, C08, C09, and  *)
(* the probabilistic parts of C02, C03, C19). The state is the sequence of *)
(* all model instances of the session, each with its current parameters;   *)
(* every observation has to agree with the current parameters of the       *)
(* instance it was made on.                                                *)
(*                                                                         *)
(* Observed numbers: weights exp(log p + log norm) = |amplitude|^2 and     *)
(* norms exp(log norm) * scale^n are integers.                             *)
(***************************************************************************)
EXTENDS Born, TraceFile

VARIABLES s, k, st, out

(***************************************************************************)
(* Data domains: none (symbols, one-hot features), table (finite domain,   *)
(* any features), poly (interval, polynomials), trig (interval of whole    *)
(* periods, powers of sine and cosine). Gram matrices of the intervals are *)
(* multiplied by the scale, to make them integer.                          *)
(***************************************************************************)
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)

Real(v) == <<Md(v), 0>>

PolyScale(dom) == CASE Len(dom.coefs[1]) = 1 -> 1
                    [] Len(dom.coefs[1]) = 2 -> 6
                    [] Len(dom.coefs[1]) = 3 -> 60

RECURSIVE HornerR(_, _, _)
HornerR(c, x, j) == IF j > Len(c) THEN 0 ELSE c[j] + x * HornerR(c, x, j + 1)

PolyFeat(dom, x) == Vec(Len(dom.coefs), LAMBDA i : Real(HornerR(dom.coefs[i], x, 1)))

RECURSIVE SumZ(_)
SumZ(u) == IF u = <<>> THEN 0 ELSE Head(u) + SumZ(Tail(u))

\* scale * integral of x^e
Moment(dom, scale, e) ==
    (scale * (IPow(dom.hi, e + 1) - IPow(dom.lo, e + 1))) \div (e + 1)

PolyInner(dom, scale, p, q) ==
    SumZ([a \in 1..(Len(p) * Len(q)) |->
            LET i == ((a - 1) \div Len(q)) + 1
                j == ((a - 1) % Len(q)) + 1
            IN  p[i] * q[j] * Moment(dom, scale, i + j - 2)])

PolyGram(dom, bias) ==
    LET cs == IF bias THEN dom.coefs \o <<[j \in 1..Len(dom.coefs[1]) |-> IF j = 1 THEN 1 ELSE 0]>>
              ELSE dom.coefs
    IN  Mat(Len(cs), Len(cs), LAMBDA i, j : Real(PolyInner(dom, PolyScale(dom), cs[i], cs[j])))

\* cos and sin of x * pi / 2 for an integer x
Cos4(x) == CASE x % 4 = 0 -> 1 [] x % 4 = 2 -> 0 - 1 [] OTHER -> 0
Sin4(x) == CASE x % 4 = 1 -> 1 [] x % 4 = 3 -> 0 - 1 [] OTHER -> 0

TrigFeat(dom, x) ==
    CASE dom.dim = 1 -> <<Real(1)>>
      [] dom.dim = 2 -> <<Real(Cos4(x)), Real(Sin4(x))>>
      [] dom.dim = 3 -> <<Real(Cos4(x) * Cos4(x)), Real(0), Real(Sin4(x) * Sin4(x))>>

\* Over an interval of length w = 2, 4, ... (w = 4, 8, ... with bias)
TrigGram(dom, bias) ==
    LET w == dom.hi - dom.lo
        h == w \div 2
        G == CASE dom.dim = 1 -> <<<<w>>>>
               [] dom.dim = 2 -> <<<<h, 0>>, <<0, h>>>>
               [] dom.dim = 3 -> <<<<3 * h, 0, h>>, <<0, 2 * h, 0>>, <<h, 0, 3 * h>>>>
        mean == CASE dom.dim = 1 -> <<w>>
                  [] dom.dim = 2 -> <<0, 0>>
                  [] dom.dim = 3 -> <<4 * h, 0, 4 * h>>
        vol == IF dom.dim = 3 THEN 4 * w ELSE w
        d == dom.dim
    IN  IF bias
        THEN Mat(d + 1, d + 1, LAMBDA i, j :
                Real(IF i <= d /\ j <= d THEN G[i][j]
                     ELSE IF i <= d THEN mean[i] ELSE IF j <= d THEN mean[j] ELSE vol))
        ELSE Mat(d, d, LAMBDA i, j : Real(G[i][j]))

\* Features of a sequence of values (of vectors if vec)
FeatsOf(m, vec, x) ==
    IF vec THEN x
    ELSE CASE m.dom.kind = "none" ->
                Vec(Len(x), LAMBDA t : OneHot(NumFeatures(m), x[t]))
           [] m.dom.kind = "table" -> Vec(Len(x), LAMBDA t : m.dom.table[x[t] + 1])
           [] m.dom.kind = "poly" -> Vec(Len(x), LAMBDA t : PolyFeat(m.dom, x[t]))
           [] m.dom.kind = "trig" -> Vec(Len(x), LAMBDA t : TrigFeat(m.dom, x[t]))

FiniteDomain(m) == IF m.dom.kind = "table" THEN m.dom.table ELSE Alphabet(m)

NormOf(m, n) ==
    LET bias == m.bias # <<>>
    IN  CASE m.dom.kind = "none" /\ (n > 6 \/ IntPow(NumFeatures(m), n) > 40) -> ZOfSymbols(m, n)
          [] m.dom.kind \in {"none", "table"} -> Z(m, FiniteDomain(m), n)
          [] m.dom.kind = "poly" -> ZByTransfer(m, PolyGram(m.dom, bias), n)
          [] m.dom.kind = "trig" -> ZByTransfer(m, TrigGram(m.dom, bias), n)

WeightOf(m, vec, x) ==
    IF m.dom.kind = "none" /\ ~vec THEN CAbs2(AmplitudeOf(m, SymbolSlices(m, x)))
    ELSE Weight(m, FeatsOf(m, vec, x))

RECURSIVE ProdOf(_, _, _)
ProdOf(m, vec, xs) ==
    IF xs = <<>> THEN 1 ELSE (WeightOf(m, vec, Head(xs)) * ProdOf(m, vec, Tail(xs))) % P

\* Derivative to coefficient k (of x^(k-1)) of the polynomial i
PolyGradTimesDen(m, n, rows, z, par) ==
    LET i == par[2]
        p == par[3]
        dom == m.dom
        sc == PolyScale(dom)
        bias == m.bias # <<>>
        cs == IF bias THEN dom.coefs \o <<[j \in 1..Len(dom.coefs[1]) |-> IF j = 1 THEN 1 ELSE 0]>>
              ELSE dom.coefs
        mono == [j \in 1..Len(dom.coefs[1]) |-> IF j = p THEN 1 ELSE 0]
        dl == Mat(Len(cs), Len(cs), LAMBDA a, b :
                Real((IF a = i THEN PolyInner(dom, sc, mono, cs[b]) ELSE 0)
                     + (IF b = i THEN PolyInner(dom, sc, cs[a], mono) ELSE 0)))
        lam == PolyGram(dom, bias)
        cores == TLCEval([t \in 1..n |-> WithBias(m, t)])
        s2 == CSum([t \in 1..n |->
                 <<ZByTransferLams(m, cores, TLCEval([u \in 1..n |-> IF u = t THEN dl ELSE lam])), 0>>])
        d == TLCEval([b \in 1..Len(rows) |->
               LET mats == TLCEval(Slices(m, rows[b].feats))
               IN  CSum([t \in 1..n |->
                      CScale(Md(IPow(rows[b].x[t], p - 1)),
                             ReplacedAt(m, mats, t, Core(m, t)[i]))])])
    IN  GradFrom(m, rows, z, d, s2)

GradOf(m, e) ==
    LET rows == TLCEval([b \in 1..Len(e.rows) |->
                   [feats |-> FeatsOf(m, e.vec, e.rows[b]), x |-> e.rows[b],
                    idx |-> IF e.vec THEN <<>>
                            ELSE [t \in 1..Len(e.rows[b]) |-> e.rows[b][t] + 1]]])
        z == NormOf(m, e.n)
    IN  [i \in 1..Len(e.par) |->
            IF e.par[i][1] = "poly"
            THEN PolyGradTimesDen(m, e.n, rows, z, e.par[i])
            ELSE GradTimesDen(m, FiniteDomain(m), e.n, rows, z, e.par[i])]

\* Observed gradients are those of log probabilities, g; the specification
\* gives conj(g)
GradOk(m, e) ==
    LET want == TLCEval(GradOf(m, e))
    IN  \A i \in 1..Len(e.par) :
            LET w == want[i]
            IN  IF e.cplx[i] THEN e.g[i] = <<w[1], (0 - w[2]) % P>>
                ELSE e.g[i] = <<w[1], 0>>

(***************************************************************************)
(* The state of an instance is its parameters, together with what has been *)
(* derived from them already (zc: norms by length, wc: verified weights),  *)
(* which only saves time.                                                  *)
(***************************************************************************)
Fresh(m) == [par |-> m, zc |-> <<>>, wc |-> {}]

Lookup(zc, n) == {i \in 1..Len(zc) : zc[i][1] = n}

WithNorm(r, n) ==
    IF Lookup(r.zc, n) # {} THEN r
    ELSE [r EXCEPT !.zc = Append(@, <<n, NormOf(r.par, n)>>)]

CachedNorm(r, n) == r.zc[CHOOSE i \in Lookup(r.zc, n) : TRUE][2]

\* The vectors of an input are kept apart from sequences of values
Key(vec, p) == IF vec THEN <<p.w, 0, p.x>> ELSE <<p.w, 1, p.x>>

Start(ses) == <<Fresh(ses.model)>>

Ok(x, v) == [st |-> x, out |-> v]

Step(ses, x, e) ==
    CASE e.op = "norm" ->
           LET r == TLCEval(WithNorm(x[e.m], e.n))
           IN  Ok([x EXCEPT ![e.m] = r],
                  IF e.z = CachedNorm(r, e.n) THEN "ok"
                  ELSE "log norm isn't the log of the sum over all sequences")
      [] e.op = "weights" ->
           LET r == x[e.m]
               new == {i \in 1..Len(e.rows) : Key(e.vec, e.rows[i]) \notin r.wc}
           IN  Ok([x EXCEPT ![e.m].wc = @ \cup {Key(e.vec, e.rows[i]) : i \in new}],
                  IF ~e.shape THEN "shape of the output (" \o e.how \o ")"
                  ELSE IF \E i \in new :
                             e.rows[i].w # WeightOf(r.par, e.vec, e.rows[i].x)
                  THEN "log probability isn't log(|amplitude|^2 / Z) (" \o e.how \o ")"
                  ELSE "ok")
      [] e.op = "loss" ->
           Ok(x, IF e.w = ProdOf(x[e.m].par, e.vec, e.rows) THEN "ok"
                 ELSE "loss isn't minus the mean log probability (" \o e.how \o ")")
      [] e.op = "grad" ->
           Ok(x, IF GradOk(x[e.m].par, e) THEN "ok" ELSE "gradient (" \o e.how \o ")")
      [] e.op = "params" -> [st |-> [x EXCEPT ![e.m] = Fresh(e.model)], out |-> "ok"]
      [] e.op = "copy" -> [st |-> Append(x, x[e.m]), out |-> "ok"]
      [] e.op = "assign" -> [st |-> [x EXCEPT ![e.m] = x[e.from]], out |-> "ok"]
      [] e.op = "fact" -> Ok(x, IF e.holds THEN "ok" ELSE e.what)
      [] OTHER -> Ok(x, "unknown event")

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
