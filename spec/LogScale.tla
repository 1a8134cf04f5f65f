----------------------------- MODULE LogScale -----------------------------
(***************************************************************************)
(* Design model of the evaluation of long products (property C05). Only    *)
(* the magnitude of a matrix matters here: a number is zero, or 2^e, or    *)
(* (after a division of zero by zero) not a number. Registers hold         *)
(* exponents up to Limit, beyond which floating-point numbers overflow or  *)
(* underflow. Scales divided out are added to the log register.            *)
(* Items are multiplied pairwise (parallel) or one by one (serial).        *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS MaxLen, MaxExp, Limit,
          Guard,    \* zero scales are replaced by one
          Rescale   \* "always"; "end": broken variant which rescales at the end

VARIABLES factors, items, log, mode

vars == <<factors, items, log, mode>>

Zero == [kind |-> "zero", e |-> 0]
NaN == [kind |-> "nan", e |-> 0]
Inf == [kind |-> "inf", e |-> 0]
Num(x) == IF x > Limit THEN Inf ELSE IF x < 0 - Limit THEN Zero
          ELSE [kind |-> "num", e |-> x]

Values == {Zero} \cup {Num(x) : x \in (0 - MaxExp)..MaxExp}

Mul(a, b) ==
    IF a.kind = "nan" \/ b.kind = "nan" THEN NaN
    ELSE IF {a.kind, b.kind} = {"zero", "inf"} THEN NaN
    ELSE IF a.kind = "zero" \/ b.kind = "zero" THEN Zero
    ELSE IF a.kind = "inf" \/ b.kind = "inf" THEN Inf
    ELSE Num(a.e + b.e)

\* Divide by the magnitude; the amount to add to the log register
Scaled(a) ==
    CASE a.kind = "num" -> Num(0)
      [] a.kind = "zero" -> IF Guard THEN Zero ELSE NaN
      [] OTHER -> NaN
Amount(a) == IF a.kind = "num" THEN a.e ELSE 0

RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE SumTo(q, n - 1) + q[n]

Init ==
    /\ \E n \in 1..MaxLen : factors \in [1..n -> Values]
    /\ items = factors
    /\ log = 0
    /\ mode \in {"serial", "parallel"}

Doing(a) == Rescale = "always"

SerialStep ==
    /\ mode = "serial" /\ Len(items) > 1
    /\ LET p == Mul(items[1], items[2])
           last == Len(items) = 2
           do == Rescale = "always" \/ last
       IN  /\ items' = <<IF do THEN Scaled(p) ELSE p>> \o SubSeq(items, 3, Len(items))
           /\ log' = IF do THEN log + Amount(p) ELSE log
    /\ UNCHANGED <<factors, mode>>

ParallelStep ==
    /\ mode = "parallel" /\ Len(items) > 1
    /\ LET h == Len(items) \div 2
           all == [i \in 1..h |-> Mul(items[2 * i - 1], items[2 * i])]
                    \o SubSeq(items, 2 * h + 1, Len(items))
           do == Rescale = "always" \/ Len(all) = 1
       IN  /\ items' = IF do THEN [i \in 1..Len(all) |-> Scaled(all[i])] ELSE all
           /\ log' = IF do THEN log + SumTo([i \in 1..Len(all) |-> Amount(all[i])], Len(all))
                     ELSE log
    /\ UNCHANGED <<factors, mode>>

Next == SerialStep \/ ParallelStep
Spec == Init /\ [][Next]_vars

AnyZero == \E i \in 1..Len(factors) : factors[i].kind = "zero"
Total == SumTo([i \in 1..Len(factors) |-> factors[i].e], Len(factors))

\* Registers never overflow and never become NaN
Finite == \A i \in 1..Len(items) : items[i].kind \in {"num", "zero"}

\* At the end the registers determine the exact product
Exact ==
    Len(items) = 1 =>
        IF AnyZero THEN items[1].kind = "zero"
        ELSE items[1].kind = "num" /\ items[1].e + log = Total

\* What is left in the registers has ordinary magnitude
Ordinary == Len(items) = 1 /\ Len(factors) > 1 => items[1].e = 0
=============================================================================
