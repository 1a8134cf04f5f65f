------------------------------- MODULE HVData -------------------------------
(***************************************************************************)
(* Generation of the horizontal/vertical data set: patterns are the binary *)
(* numbers 1 .. 2^n - 2; images and labels are shuffled by swaps at random *)
(* positions, twice with the same random numbers; then they are split.     *)
(* Variant: "design"; "zero" (numbers from 0), "all" (numbers up to        *)
(* 2^n - 1), "apart" (labels are shuffled by numbers of their own), "gap"  *)
(* (the training set starts one image late).                               *)
(***************************************************************************)
EXTENDS DataOps, TLC

CONSTANTS MaxN, Swaps, Variant

VARIABLES n, i, images, labels, swaps, phase
vars == <<n, i, images, labels, swaps, phase>>

First == IF Variant = "zero" THEN 0 ELSE 1
Final == IF Variant = "all" THEN Pow(2, n) - 1 ELSE Pow(2, n) - 2

Init ==
    /\ n \in 1..MaxN
    /\ i = First
    /\ images = <<>> /\ labels = <<>> /\ swaps = 0 /\ phase = "make"

Make ==
    /\ phase = "make"
    /\ IF i <= Final
       THEN LET pat == [k \in 1..n |-> Digit(i, n, k)] IN
            /\ images' = images \o <<Image(pat, 0), Image(pat, 1)>>
            /\ labels' = labels \o <<0, 1>>
            /\ i' = i + 1 /\ phase' = phase
       ELSE phase' = "shuffle" /\ UNCHANGED <<images, labels, i>>
    /\ UNCHANGED <<n, swaps>>

Exchange(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]

Swap ==
    /\ phase = "shuffle"
    /\ swaps < Swaps
    /\ \E a, b \in 1..Len(images) :
         /\ a < b
         /\ images' = Exchange(images, a, b)
         /\ labels' = IF Variant = "apart" THEN labels ELSE Exchange(labels, a, b)
    /\ swaps' = swaps + 1
    /\ UNCHANGED <<n, i, phase>>

Finish == phase = "shuffle" /\ phase' = "done" /\ UNCHANGED <<n, i, images, labels, swaps>>

Next == Make \/ Swap \/ Finish

Items(a, b) == [k \in 1..(b - a + 1) |-> <<images[a + k - 1], labels[a + k - 1]>>]
Cut == Len(images) \div 4
Test == Items(1, Cut)
Train == Items(Cut + (IF Variant = "gap" THEN 2 ELSE 1), Len(images))

Good == phase = "done" => Complete(n, Test \o Train) /\ Split(n, Len(Test), Len(Train))
=============================================================================
