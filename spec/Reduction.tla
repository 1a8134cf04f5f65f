----------------------------- MODULE Reduction -----------------------------
(***************************************************************************)
(* Design model of the evaluation of a product of matrices: any strategy   *)
(* the code uses multiplies neighbours. Items are symbolic: the word of    *)
(* the factors they are the product of, and their numbers of rows/columns. *)
(* Strategies: from the left, from the right (by transposing everything,   *)
(* as mat_reduce_seq does), and pairwise rounds with a leftover            *)
(* (mat_reduce_par, MatRegion.reduce).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxLen,       \* longest sequence of matrices
          Dims,         \* possible dimensions
          Leftover      \* "keep" (the design); "drop", "front": broken variants

VARIABLES n, dims, items, mode, flipped, rounds

vars == <<n, dims, items, mode, flipped, rounds>>

Item(i) == [word |-> <<i>>, rows |-> dims[i], cols |-> dims[i + 1]]

Init ==
    /\ n \in 1..MaxLen
    /\ dims \in [1..(n + 1) -> Dims]
    /\ items = [i \in 1..n |-> [word |-> <<i>>, rows |-> dims[i], cols |-> dims[i + 1]]]
    /\ mode = "start"
    /\ flipped = FALSE
    /\ rounds = 0

Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

\* Transposing reverses the word and swaps the dimensions
T(x) == [word |-> Reverse(x.word), rows |-> x.cols, cols |-> x.rows]

Mul(a, b) == [word |-> a.word \o b.word, rows |-> a.rows, cols |-> b.cols]

SameShape == \A i \in 1..n : dims[i] = dims[1] /\ dims[i + 1] = dims[1]

ChooseSerial ==
    /\ mode = "start"
    /\ mode' = "serial"
    \* Multiply from the cheaper end
    /\ flipped' = (items[n].cols < items[1].rows)
    /\ items' = IF flipped' THEN [i \in 1..n |-> T(items[n + 1 - i])] ELSE items
    /\ UNCHANGED <<n, dims, rounds>>

ChooseParallel ==
    /\ mode = "start"
    /\ SameShape
    /\ mode' = "parallel"
    /\ UNCHANGED <<n, dims, items, flipped, rounds>>

SerialStep ==
    /\ mode = "serial"
    /\ Len(items) > 1
    /\ items' = <<Mul(items[1], items[2])>> \o SubSeq(items, 3, Len(items))
    /\ UNCHANGED <<n, dims, mode, flipped, rounds>>

ParallelRound ==
    /\ mode = "parallel"
    /\ Len(items) > 1
    /\ LET half == Len(items) \div 2
           pairs == [i \in 1..half |-> Mul(items[2 * i - 1], items[2 * i])]
           rest == SubSeq(items, 2 * half + 1, Len(items))
       IN  items' = CASE Leftover = "keep" -> pairs \o rest
                      [] Leftover = "drop" -> pairs
                      [] Leftover = "front" -> rest \o pairs
    /\ rounds' = rounds + 1
    /\ UNCHANGED <<n, dims, mode, flipped>>

Unflip ==
    /\ mode = "serial" /\ Len(items) = 1 /\ flipped
    /\ items' = <<T(items[1])>>
    /\ flipped' = FALSE
    /\ UNCHANGED <<n, dims, mode, rounds>>

Next == ChooseSerial \/ ChooseParallel \/ SerialStep \/ ParallelRound \/ Unflip

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == mode # "start" /\ Len(items) = 1 /\ ~flipped

\* The result is the product of all the factors in order
InOrder == Finished => items[1] = [word |-> [i \in 1..n |-> i],
                                   rows |-> dims[1], cols |-> dims[n + 1]]

\* Neighbours can always be multiplied
Fits == \A i \in 1..(Len(items) - 1) : items[i].cols = items[i + 1].rows

RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2((x + 1) \div 2)

\* Parallel evaluation has logarithmic depth
Depth == mode = "parallel" /\ Len(items) = 1 => rounds = Log2(n)

Terminates == <>Finished
=============================================================================
