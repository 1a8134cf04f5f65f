----------------------------- MODULE TraceRun -----------------------------
(***************************************************************************)
(* Validation of traces recorded from the implementation. The trace file   *)
(* (named by the environment variable TRACE) has one session per line: the *)
(* configuration, and the sequence "ev" of observed events. A behaviour of *)
(* this module consumes one event per step, with StepOp(session, state,    *)
(* event) giving the verdict on the event ("ok", or the name of the clause *)
(* of the specification which it contradicts) and the next state of the    *)
(* specification. Verdicts are total: every session is reported as DONE or *)
(* as FAIL with the failing clause.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Sessions, StartOp(_), StepOp(_, _, _)

VARIABLES s, k, st, out


vars == <<s, k, st, out>>

Init ==
    /\ s \in 1..Len(Sessions)
    /\ k = 0
    /\ st = IF Len(Sessions[s].ev) > 0 /\ Sessions[s].ev[1].op = "raised"
            THEN <<>> ELSE StartOp(Sessions[s])
    /\ out = "ok"

Consume ==
    /\ out = "ok"
    /\ k < Len(Sessions[s].ev)
    /\ LET e == Sessions[s].ev[k + 1]
           r == IF e.op = "raised"
                THEN [out |-> "call raised an exception", st |-> st]
                ELSE StepOp(Sessions[s], st, e)
       IN /\ out' = r.out
          /\ st' = r.st
          /\ k' = k + 1
          /\ s' = s
          /\ IF r.out # "ok" THEN PrintT("FAIL " \o ToString(s) \o " " \o ToString(k + 1) \o " " \o r.out) ELSE TRUE

Finish ==
    /\ out = "ok"
    /\ k = Len(Sessions[s].ev)
    /\ PrintT(<<"DONE", s>>)
    /\ out' = "done"
    /\ UNCHANGED <<s, k, st>>

Next == Consume \/ Finish
=============================================================================
