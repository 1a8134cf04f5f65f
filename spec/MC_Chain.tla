----------------------------- MODULE MC_Chain -----------------------------
(***************************************************************************)
(* Check of the specification of supervised and sequence models itself on  *)
(* small models: the ordered product is the sum over all assignments of    *)
(* the bonds (which has no order of evaluation at all), and the derivatives *)
(* are the central differences (exact, the degree being at most two).      *)
(***************************************************************************)
EXTENDS Chain

CONSTANTS MaxN, MaxD, Seeds, Variant

VARIABLES m, x, raw, done
vars == <<m, x, raw, done>>

\* Pseudo-random small numbers
Val(s, a) == Md((((s * a) + (a * a) + s) % 5) - 2)

CoreFor(s, n, D) == Mat(D, D, LAMBDA l, r : <<Val(s, n + 2 * l + 3 * r), Val(s, 2 * n + l + 4 * r)>>)
MatFor(s, c, D) == Mat(D, D, LAMBDA l, r : Val(s + c, 3 * l + r))

Models ==
    {LET D == d
         NC == IF ty = "ti" THEN 1 ELSE n
     IN  [type |-> ty,
          cores |-> Vec(NC, LAMBDA i : CoreFor(s, i, D)),
          biasL |-> IF b THEN MatFor(s, 1, D) ELSE <<>>,
          biasR |-> IF b /\ ty = "sup" THEN MatFor(s, 2, D) ELSE <<>>,
          outcore |-> IF ty = "ti" THEN <<MatFor(s, 3, D)>> ELSE <<MatFor(s, 3, D), MatFor(s, 4, D)>>,
          label |-> IF ty = "ti" THEN 0 ELSE (IF lab > n THEN n ELSE lab),
          periodic |-> per /\ ty = "sup",
          init |-> Vec(D, LAMBDA i : Val(s, i)),
          term |-> Mat(D, 2, LAMBDA i, j : Val(s, i + 2 * j)),
          path |-> IF pa /\ ty = "sup" THEN Vec(n, LAMBDA i : (i - 1) \div 2) ELSE <<>>,
          fmap |-> IF fm THEN <<<<1, 1, 1>>, <<Md(-1), 2, 0>>>> ELSE <<>>,
          len |-> n]
     : ty \in {"sup", "ti"}, n \in 1..MaxN, d \in 1..MaxD, s \in Seeds, b \in BOOLEAN,
       lab \in 0..MaxN, per \in BOOLEAN, pa \in BOOLEAN, fm \in BOOLEAN}

Init ==
    /\ m \in Models
    /\ raw \in BOOLEAN
    /\ x = IF raw THEN Vec(m.len, LAMBDA i : Val(2, i))
           ELSE Vec(m.len, LAMBDA i : <<Val(1, i), Val(3, i)>>)
    /\ done = FALSE

Next == done = FALSE /\ done' = TRUE /\ UNCHANGED <<m, x, raw>>

OrderedIsPathSum ==
    m.type = "sup" =>
        LET mats == TLCEval(ChainMats(m, FeatsOf(m, raw, x)))
            o == TLCEval(ChainOut(m, mats))
        IN  \A i \in 1..2 : o[i] = PathSum(m, mats, i)

W == <<1, 3>>
F(mm, xx) == Dot(W, OutOf(mm, raw, xx))

\* The model with t added to a parameter
Shift(par, t) ==
    LET Add(A, l, r) == [A EXCEPT ![l][r] = (@ + t) % P]
    IN  CASE par[1] = "core" ->
               [m EXCEPT !.cores[par[2]][par[3]][par[4]][par[5]] = (@ + t) % P]
          [] par[1] = "biasL" -> [m EXCEPT !.biasL = Add(@, par[2], par[3])]
          [] par[1] = "biasR" -> [m EXCEPT !.biasR = Add(@, par[2], par[3])]
          [] par[1] = "out" -> [m EXCEPT !.outcore[par[2]] = Add(@, par[3], par[4])]
          [] par[1] = "init" -> [m EXCEPT !.init[par[2]] = (@ + t) % P]
          [] par[1] = "term" -> [m EXCEPT !.term = Add(@, par[2], par[3])]
          [] par[1] = "fmap" -> [m EXCEPT !.fmap[par[2]][par[3]] = (@ + t) % P]
          [] OTHER -> m

ShiftX(par, t) ==
    CASE par[1] = "x" -> [x EXCEPT ![par[2]][par[3]] = (@ + t) % P]
      [] OTHER -> x

D == Len(m.cores[1])

Pars ==
    {<<"core", n, l, r, i>> : n \in 1..Len(m.cores), l, r \in {1, D}, i \in 1..2}
    \cup (IF m.biasL # <<>> THEN {<<"biasL", l, D>> : l \in 1..D} ELSE {})
    \cup (IF m.biasR # <<>> THEN {<<"biasR", l, 1>> : l \in 1..D} ELSE {})
    \cup (IF m.type = "sup" THEN {<<"out", 2, l, 1>> : l \in 1..D}
          ELSE {<<"init", l>> : l \in 1..D} \cup {<<"term", l, 2>> : l \in 1..D})
    \cup (IF m.fmap # <<>> /\ raw THEN {<<"fmap", 1, kk>> : kk \in 1..3} ELSE {})
    \cup (IF raw THEN {} ELSE {<<"x", p, 2>> : p \in 1..m.len})

DSpec(par) ==
    IF Variant = "firstsite" /\ par[1] = "biasL"
    THEN DOut([m EXCEPT !.label = IF @ > 1 THEN 1 ELSE @], raw, x, W, par)
    ELSE DOut(m, raw, x, W, par)

DerivativeIsDifference ==
    m.len <= 2 => \A par \in Pars :
        (2 * DSpec(par)) % P
            = (F(Shift(par, 1), ShiftX(par, 1)) - F(Shift(par, -1), ShiftX(par, -1))) % P

\* A raw datum enters through the feature map (chain rule)
RawIsChainRule ==
    raw => \A p \in 1..m.len :
        LET dx == [q \in 1..m.len |-> DFeature(m, x[q])]
            me == [m EXCEPT !.fmap = <<>>]
            xe == Vec(m.len, LAMBDA q : Feature(m, x[q]))
        IN  DOut(m, TRUE, x, W, <<"raw", p>>)
              = (((DOut(me, FALSE, xe, W, <<"x", p, 1>>) * dx[p][1]) % P)
                 + ((DOut(me, FALSE, xe, W, <<"x", p, 2>>) * dx[p][2]) % P)) % P
=============================================================================
