------------------------------ MODULE DataOps ------------------------------
(***************************************************************************)
(* Data utilities and built-in embeddings (C23).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Tup(n, f(_)) == [i \in 1..n |-> f(i)]
Unit(n, j) == Tup(n, LAMBDA i : IF i = j THEN 1 ELSE 0)

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))

\* q^(d-1) times the squares of the trigonometric features at the point whose
\* cosine has the square p/q
TrigSquares(d, p, q) ==
    Tup(d, LAMBDA j : Binom(d - 1, j - 1) * Pow(p, d - j) * Pow(q - p, j - 1))

\* The same modulo a number m, for many features
RECURSIVE PowMod(_, _, _)
PowMod(x, n, m) == IF n = 0 THEN 1 ELSE ((x % m) * PowMod(x, n - 1, m)) % m
RECURSIVE PascalRow(_, _)
PascalRow(n, m) ==
    IF n = 0 THEN <<1>>
    ELSE LET r == TLCEval(PascalRow(n - 1, m))
         IN  Tup(n + 1, LAMBDA k : ((IF k = 1 THEN 0 ELSE r[k - 1]) + (IF k > n THEN 0 ELSE r[k])) % m)
TrigSquaresMod(d, p, q, m) ==
    LET r == TLCEval(PascalRow(d - 1, m))
    IN  Tup(d, LAMBDA j : (((r[j] * PowMod(p, d - j, m)) % m) * PowMod(q - p, j - 1, m)) % m)

\* Digit k (from the left) of i as a binary number with n digits
Digit(i, n, k) == (i \div Pow(2, n - k)) % 2

\* Images of stripes: all rows (label 0) or columns (label 1) are constant
Image(pat, label) ==
    LET n == Len(pat) IN
    Tup(n, LAMBDA r : Tup(n, LAMBDA c : IF label = 0 THEN pat[r] ELSE pat[c]))

Patterns(n) == {pat \in [1..n -> {0, 1}] : \E i, j \in 1..n : pat[i] # pat[j]}

\* The labelled images which have to be there, once each
AllImages(n) == {<<Image(pat, l), l>> : pat \in Patterns(n), l \in {0, 1}}

Complete(n, items) ==
    /\ Len(items) = Cardinality(AllImages(n))
    /\ {items[i] : i \in 1..Len(items)} = AllImages(n)

\* One quarter / three quarters
Split(n, test, train) == (4 * test) = test + train /\ test + train = (2 * Pow(2, n)) - 4

Reordered(xs, ys) ==
    /\ Len(xs) = Len(ys)
    /\ \A v \in {xs[i] : i \in 1..Len(xs)} \cup {ys[i] : i \in 1..Len(ys)} :
         Cardinality({i \in 1..Len(xs) : xs[i] = v}) = Cardinality({i \in 1..Len(ys) : ys[i] = v})
=============================================================================
