------------------------------- MODULE J_Alg -------------------------------
(***************************************************************************)
(* Trace validation for contractables (C17). The state is the sequence of  *)
(* the values which were made so far.                                      *)
(***************************************************************************)
EXTENDS Algebra, TraceFile

VARIABLES s, k, st, out

Start(ses) == <<>>
Ok(x, v) == [st |-> x, out |-> v]

\* Is the observed result this value?
Agrees(z, o) ==
    IF o.kind # z.kind THEN "kind of the result"
    ELSE IF z.kind = "reg"
    THEN IF o.mats = z.mats THEN "ok"
         ELSE IF Meaning(o) = Meaning(z) THEN "ok" ELSE "matrices of a region"
    ELSE IF o.l # z.l \/ o.r # z.r \/ o.outs # z.outs THEN "bonds and outputs of the result"
    ELSE IF o.v # z.v THEN "entries of the result" ELSE "ok"

RECURSIVE Item(_, _)
\* Numbers stand for values, sequences for lists
Item(x, it) ==
    IF it.n > 0 THEN x[it.n]
    ELSE [kind |-> "list", items |-> Vec(Len(it.items), LAMBDA i : Item(x, it.items[i]))]

Items_(x, its) == Vec(Len(its), LAMBDA i : Item(x, its[i]))

\* A result is right whenever there is one, and there is one if there has to be
Verdict(x, e, must, whole) ==
    IF e.res.kind = "refused"
    THEN Ok(x, IF must # Nothing THEN "a supported product was refused" ELSE "ok")
    ELSE IF must # Nothing THEN Ok(Append(x, e.res), Agrees(must, e.res))
    ELSE LET w == TLCEval(Closed(whole))
             o == Closed(e.res)
         IN  Ok(Append(x, e.res),
                IF o.l = w.l /\ o.r = w.r /\ o.outs = w.outs /\ o.v = w.v THEN "ok"
                ELSE "a product which isn't supported was computed wrongly")

Step(ses, x, e) ==
    CASE e.op = "make" ->
           Ok(Append(x, e.val), Agrees(e.val, e.res))
      [] e.op = "mul" ->
           LET a == x[e.a] b == x[e.b]
           IN  IF ~Adjacent(a, b) \/ ~Fits(a, b)
               THEN Ok(x, IF e.res.kind = "refused" THEN "ok" ELSE "a product which makes no sense was computed")
               ELSE Verdict(x, e, TLCEval(Times(a, b)), Whole(<<a, b>>))
      [] e.op = "reduce" ->
           LET its == TLCEval(Items_(x, e.items))
               must == TLCEval(IF e.parallel THEN Parallel(its) ELSE Serial(its))
           IN  Verdict(x, e, must, Whole(TLCEval(Items(its))))
      [] e.op = "listmul" ->
           LET its == TLCEval(Items_(x, e.items))
               y == x[e.x]
               l == [kind |-> "list", items |-> its]
           IN  IF e.side = "right"
               THEN Verdict(x, e, TLCEval(Times(l, y)), Whole(TLCEval(Items(its) \o <<y>>)))
               ELSE Verdict(x, e, TLCEval(Times(y, l)), Whole(TLCEval(<<y>> \o Items(its))))
      [] e.op = "same" -> \* the values are still what they were
           Ok(x, Agrees(x[e.a], e.res))
      [] e.op = "fact" -> Ok(x, IF e.holds THEN "ok" ELSE e.what)
      [] OTHER -> Ok(x, "unknown event")

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
