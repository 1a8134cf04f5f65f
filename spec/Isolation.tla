----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Concurrent evaluations, each consisting of some segments between which  *)
(* the others may run. Every segment expands something to the batch size   *)
(* of its evaluation. Register = "own" is the design (the batch size is    *)
(* passed along within the evaluation); "shared" is the broken variant     *)
(* where it's kept in a process-wide register, written when inputs are     *)
(* contracted and read when a core without input is expanded (what the     *)
(* original code did).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Segments, Register, Emit

VARIABLES pos, register, seen, hist
vars == <<pos, register, seen, hist>>

\* Evaluation t has batch size t
Init ==
    /\ pos = [t \in 1..Threads |-> 0]
    /\ register = 1
    /\ seen = [t \in 1..Threads |-> {}]
    /\ hist = <<>>

\* Even segments write the register, all of them use it
Run(t) ==
    /\ pos[t] < Segments
    /\ pos' = [pos EXCEPT ![t] = @ + 1]
    /\ register' = IF Register = "shared" /\ pos[t] % 2 = 1 THEN t ELSE register
    /\ seen' = [seen EXCEPT ![t] = @ \cup {IF Register = "own" THEN t ELSE register'}]
    /\ hist' = Append(hist, t)

Next == \E t \in 1..Threads : Run(t)

Isolated == \A t \in 1..Threads : seen[t] \subseteq {t}

Emitted ==
    (Emit /\ \A t \in 1..Threads : pos[t] = Segments) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
