------------------------------ MODULE Reducer ------------------------------
(***************************************************************************)
(* Chains of contractables which are multiplied together (C17): in every   *)
(* step two neighbours are replaced by their product. Mode "free" takes    *)
(* any neighbours for which the product is supported, "serial" is the      *)
(* algorithm of ContractableList (right to left, and at the left end where *)
(* that isn't supported), "parallel" the same with reduced items.          *)
(* Broken variants (How): "each" scales every matrix of a region,          *)
(* "swapped" puts the outputs of the right factor first, "turned" takes    *)
(* the bonds of a vector for the other one, "stuck" has no other end.      *)
(***************************************************************************)
EXTENDS Algebra, FiniteSets

CONSTANTS Seeds, MaxMid, Mode, How, Ends, Mids

VARIABLES c, start
vars == <<c, start>>

Val(s, a) == Md((((s * a) + (a * a) + s) % 5) - 2)

Make(kind, l, r, outs, nout, s) ==
    [kind |-> kind, l |-> l, r |-> r, outs |-> outs,
     v |-> <<Vec(nout, LAMBDA o : Mat(One(l), One(r), LAMBDA i, j : Val(s, i + (2 * j) + (3 * o))))>>]

\* Things which may stand at the left end, in the middle, and at the right end
LeftEnds(s) == {<<>>} \cup {<<Make("left", 0, 2, <<>>, 1, s)>>, <<Make("oleft", 0, 2, <<2>>, 2, s)>>}
RightEnds(s) == {<<>>} \cup {<<Make("right", 2, 0, <<>>, 1, s + 1)>>, <<Make("oright", 2, 0, <<2>>, 2, s + 1)>>}
Middle(s) ==
    {Make("mat", 2, 2, <<>>, 1, s), Make("core", 2, 2, <<2>>, 2, s), Make("scalar", 0, 0, <<>>, 1, s),
     [kind |-> "reg", l |-> 2, r |-> 2, outs |-> <<>>,
      mats |-> <<<<Mat(2, 2, LAMBDA i, j : Val(s, i + j)), Mat(2, 2, LAMBDA i, j : Val(s, i - j))>>>>]}

Good(xs, which) == \A i \in 1..Len(xs) : xs[i].kind \in which

RECURSIVE Seqs(_, _)
Seqs(n, s) == IF n = 0 THEN {<<>>}
              ELSE {<<x>> \o q : x \in {y \in Middle(s) : y.kind \in Mids}, q \in Seqs(n - 1, s + 1)}

Chains ==
    UNION {{a \o q \o b : a \in {e \in LeftEnds(s) : Good(e, Ends)},
                          b \in {e \in RightEnds(s) : Good(e, Ends)},
                          q \in UNION {Seqs(n, s) : n \in 0..MaxMid}} : s \in Seeds}

Init ==
    /\ start \in {x \in Chains : Len(x) > 0}
    /\ c = IF Mode = "parallel" THEN Vec(Len(start), LAMBDA i : Closed(start[i])) ELSE start

\* Products as the library makes them
Made(x, y) ==
    IF How = "each" /\ ((IsScalar(x) /\ y.kind = "reg") \/ (IsScalar(y) /\ x.kind = "reg"))
    THEN LET sc == IF IsScalar(x) THEN x ELSE y
             rg == IF IsScalar(x) THEN y ELSE x
         IN  [rg EXCEPT !.mats = Vec(Len(@), LAMBDA b : Vec(Len(rg.mats[b]), LAMBDA k :
                                     MatScale(sc.v[b][1][1][1], rg.mats[b][k])))]
    ELSE IF How = "swapped" /\ ~IsScalar(x) /\ ~IsScalar(y) /\ x.kind # "reg" /\ y.kind # "reg"
         /\ Len(x.outs) > 0 /\ Len(y.outs) > 0
    THEN LET n == Len(x.v[1])
         IN  [Product(x, y) EXCEPT !.v = Vec(Len(x.v), LAMBDA b :
                  Vec(n * Len(y.v[b]), LAMBDA k : MatMul(x.v[b][((k - 1) % n) + 1], y.v[b][((k - 1) \div n) + 1])))]
    ELSE IF How = "turned" /\ x.kind = "reg" /\ y.kind = "right"
    THEN [Product(x, y) EXCEPT !.v = Vec(Len(y.v), LAMBDA b :
              <<Transp(<<VecMats(Transp(y.v[b][1])[1], x.mats[b])>>)>>)]
    ELSE Product(x, y)

Replace(i) == SubSeq(c, 1, i - 1) \o <<Made(c[i], c[i + 1])>> \o SubSeq(c, i + 2, Len(c))

Free == \E i \in 1..(Len(c) - 1) : Supported(c[i], c[i + 1]) /\ c' = Replace(i)

Ordered ==
    LET n == Len(c)
    IN  /\ n > 1
        /\ IF Supported(c[n - 1], c[n]) THEN c' = Replace(n - 1)
           ELSE How # "stuck" /\ Supported(c[1], c[2]) /\ c' = Replace(1)

Next == start' = start /\ IF Mode = "free" THEN Free ELSE Ordered

\* Every association order has the same meaning
Confluent == Meaning(Whole(c)) = Meaning(Whole(start))

\* Bonds stay matched, and nothing becomes a value of the wrong kind
WellFormed ==
    /\ Chained(c)
    /\ \A i \in 1..Len(c) : c[i].kind \in {"mat", "left", "right", "scalar", "core", "gen"}
                                => c[i].kind = KindOf(c[i].l, c[i].r, c[i].outs)

(***************************************************************************)
(* The algorithm doesn't get stuck for the chains of the library: vectors  *)
(* at both ends and at most one core, or an output matrix at one of the    *)
(* ends and no core.                                                       *)
(***************************************************************************)
Has(kind) == \E i \in 1..Len(start) : start[i].kind = kind
Promised ==
    /\ \/ Has("left") /\ ~Has("oleft") /\ (Has("right") \/ Has("oright"))
       \/ Has("oleft") /\ Has("right") /\ ~Has("scalar")
       \/ (Has("left") \/ Has("right")) /\ ~Has("oleft") /\ ~Has("oright") /\ ~Has("core")
    /\ Cardinality({i \in 1..Len(start) : start[i].kind = "core"})
         <= IF Has("oleft") \/ Has("oright") THEN 0 ELSE 1
Reduces == Promised /\ ~ENABLED Next => Len(c) = 1

\* The operators used for judging are this algorithm
SameResult == Len(c) = 1 /\ Mode # "free" =>
    c[1] = (IF Mode = "serial" THEN Serial(start) ELSE Parallel(start))
=============================================================================
