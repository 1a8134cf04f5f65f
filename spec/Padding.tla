------------------------------ MODULE Padding ------------------------------
(***************************************************************************)
(* A batch of sequences of different lengths, which TI_MPS evaluates as a  *)
(* rectangular batch (C15). Sequences grow element by element; in every    *)
(* state the batch is collated and evaluated:                              *)
(*   right      zero feature vectors at the end, after embedding           *)
(*   raw        zeros at the end, embedded like data                       *)
(*   repeat     the last element is repeated                               *)
(*   cut        sequences are cut to the length of the shortest            *)
(* Mixed lengths are admitted for a fixed bias only (Guard), since zero    *)
(* features give the bias matrix.                                          *)
(***************************************************************************)
EXTENDS Chain, FiniteSets

CONSTANTS Batch, MaxLen, Seeds, Bias, Collate, Guard

VARIABLES m, seqs
vars == <<m, seqs>>

Val(s, a) == Md((((s * a) + (a * a) + s) % 5) - 2)

Models ==
    {[type |-> "ti",
      cores |-> <<Mat(D, D, LAMBDA l, r : <<Val(s, 1 + 2 * l + 3 * r), Val(s, 2 + l + 4 * r)>>)>>,
      biasL |-> IF b = "none" THEN <<>> ELSE IF b = "fixed" THEN Eye(D)
                ELSE Mat(D, D, LAMBDA l, r : Val(s + 1, 3 * l + r)),
      bias |-> b, init |-> Vec(D, LAMBDA i : Val(s, i)),
      term |-> Mat(D, 2, LAMBDA i, j : Val(s, i + 2 * j)),
      path |-> <<>>, fmap |-> IF f THEN <<<<1, 1, 1>>, <<Md(-1), 2, 0>>>> ELSE <<>>]
     : s \in Seeds, D \in 1..2, b \in Bias, f \in BOOLEAN}

Init == m \in Models /\ seqs = [i \in 1..Batch |-> <<>>]

Next == \E i \in 1..Batch, v \in {0, 1, 2} :
          /\ Len(seqs[i]) < MaxLen
          /\ seqs' = [seqs EXCEPT ![i] = Append(@, v)]
          /\ UNCHANGED m

Lengths == {Len(seqs[i]) : i \in 1..Batch}
Longest == CHOOSE n \in Lengths : \A k \in Lengths : k <= n
Shortest == CHOOSE n \in Lengths : \A k \in Lengths : k >= n

\* Features of a sequence, made n long
Collated(x, n) ==
    LET fs == Vec(Len(x), LAMBDA t : Feature(m, x[t]))
    IN  CASE Collate = "right" -> Vec(n, LAMBDA t : IF t <= Len(x) THEN fs[t] ELSE <<0, 0>>)
          [] Collate = "raw" -> Vec(n, LAMBDA t : IF t <= Len(x) THEN fs[t] ELSE Feature(m, 0))
          [] Collate = "repeat" -> Vec(n, LAMBDA t : IF t <= Len(x) THEN fs[t]
                                                     ELSE IF x = <<>> THEN <<0, 0>> ELSE fs[Len(x)])
          [] Collate = "cut" -> Vec(Shortest, LAMBDA t : fs[t])

Admitted == Cardinality(Lengths) = 1 \/ ~Guard \/ m.bias = "fixed"

Alone(x) == ChainOut(m, ChainMats(m, FeatsOf(m, TRUE, x)))

PaddingIsInvisible ==
    Admitted => \A i \in 1..Batch :
        ChainOut(m, ChainMats(m, Collated(seqs[i], Longest))) = Alone(seqs[i])
=============================================================================
