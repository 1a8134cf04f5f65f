----------------------------- MODULE Truncation -----------------------------
(***************************************************************************)
(* Truncation of singular values (C11, C12, C14): the steps of the         *)
(* algorithm on every descending sequence of small singular values, every  *)
(* maximal dimension (0: none) and cutoff, against a direct statement of   *)
(* what is kept. A factor is the sequence of its columns, column k being   *)
(* <<k>> for the k'th singular vector and <<>> for zero.                   *)
(* Variant: design; strict (drops values equal to the cutoff); early       *)
(* (reports after truncation instead of before); nocrop (maximal dimension *)
(* only applied to the values); nozero (columns beyond the truncation stay *)
(* in the factor which doesn't carry the singular values)                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxLen, MaxVal, Variant

VARIABLES svs, maxD, cut, pc, cur, left, report, dim
vars == <<svs, maxD, cut, pc, cur, left, report, dim>>

Descending(q) == \A i \in 1..(Len(q) - 1) : q[i] >= q[i + 1]
Seqs(n) == UNION {[1..m -> 0..MaxVal] : m \in 1..n}

Init ==
    /\ svs \in {q \in Seqs(MaxLen) : Descending(q)}
    /\ maxD \in 0..(MaxLen + 1)
    /\ cut \in 1..(MaxVal + 1)
    /\ pc = "resize"
    /\ cur = svs
    /\ left = [k \in 1..Len(svs) |-> <<k>>]
    /\ report = <<>>
    /\ dim = 0

Resize ==
    /\ pc = "resize"
    /\ IF maxD > 0 /\ Len(svs) > maxD
       THEN /\ cur' = SubSeq(cur, 1, maxD)
            /\ left' = IF Variant = "nocrop" THEN left ELSE SubSeq(left, 1, maxD)
       ELSE IF maxD > 0
       THEN /\ cur' = [k \in 1..maxD |-> IF k <= Len(cur) THEN cur[k] ELSE 0]
            /\ left' = [k \in 1..maxD |-> IF k <= Len(left) THEN left[k] ELSE <<>>]
       ELSE UNCHANGED <<cur, left>>
    /\ report' = IF Variant = "early" THEN report ELSE cur'
    /\ pc' = "cut"
    /\ UNCHANGED <<svs, maxD, cut, dim>>

Keeps(v) == IF Variant = "strict" THEN v > cut ELSE v >= cut

RECURSIVE Count(_)
Count(k) == IF k > Len(cur) \/ ~Keeps(cur[k]) THEN k - 1 ELSE Count(k + 1)

Cut ==
    /\ pc = "cut"
    /\ dim' = Count(1)
    /\ IF dim' = 0 THEN pc' = "refused" /\ UNCHANGED <<cur, left, report>>
       ELSE /\ pc' = "done"
            /\ IF maxD > 0
               THEN /\ cur' = [k \in 1..Len(cur) |-> IF k > dim' THEN 0 ELSE cur[k]]
                    /\ left' = IF Variant = "nozero" THEN left
                               ELSE [k \in 1..Len(left) |-> IF k > dim' THEN <<>> ELSE left[k]]
               ELSE cur' = SubSeq(cur, 1, dim') /\ left' = SubSeq(left, 1, dim')
            /\ report' = IF Variant = "early" THEN cur' ELSE report
    /\ UNCHANGED <<svs, maxD, cut>>

Next == Resize \/ Cut

\* What is kept
Kept == {k \in 1..Len(svs) : svs[k] >= cut /\ (maxD > 0 => k <= maxD)}

Contract ==
    /\ pc = "refused" => Kept = {}
    /\ pc = "done" =>
         /\ Kept = 1..dim /\ dim >= 1
         /\ Len(cur) = IF maxD > 0 THEN maxD ELSE dim
         /\ Len(left) = Len(cur)
         /\ \A k \in 1..Len(cur) :
              IF k <= dim THEN cur[k] = svs[k] /\ left[k] = <<k>> ELSE cur[k] = 0 /\ left[k] = <<>>
         /\ Len(report) = IF maxD > 0 THEN maxD ELSE Len(svs)
         /\ \A k \in 1..Len(report) : report[k] = IF k <= Len(svs) THEN svs[k] ELSE 0
=============================================================================
