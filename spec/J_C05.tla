------------------------------- MODULE J_C05 -------------------------------
(***************************************************************************)
(* Trace validation for C05. Each factor is an integer matrix times 2^e,   *)
(* with an exponent e for every item of the batch. The result is observed  *)
(* as an integer times 2^shift. For probabilistic models every site has    *)
(* slices which are zero or +- one common integer matrix times 2^e, so that*)
(* all sequences of nonzero slices are equally likely.                     *)
(***************************************************************************)
EXTENDS MatSeq, TraceFile

VARIABLES s, k, st, out

Operands(ses) == ses.left \o ses.mats \o ses.right

RECURSIVE SumZ(_)
SumZ(u) == IF u = <<>> THEN 0 ELSE Head(u) + SumZ(Tail(u))

\* ses.exps[i][b] is the exponent of matrix i in batch item b
ShiftOf(ses, b) == SumZ([i \in 1..Len(ses.exps) |-> ses.exps[i][b]])

Start(ses) ==
    IF ses.kind \in {"chain", "product"}
    THEN Expected(Operands(ses), ses.extra, ses.dim, FALSE,
                  ses.left # <<>>, ses.right # <<>>)
    ELSE \* amplitude for all signs positive
         LET v == MatsVec(ses.mats, ses.r) IN Dot(ses.l, v)

Product(ses, x, e) ==
    IF ~e.finite THEN "contraction or log scale is not finite"
    ELSE IF ~e.ordinary THEN "contraction has no ordinary magnitude"
    ELSE IF e.shift # [b \in 1..Len(e.shift) |-> ShiftOf(ses, b)] THEN "exponent"
    ELSE ProductVerdict(x, e.res)

\* log2 of the probability, and log_norm = amplitude^2 * 2^shift
LogProb(ses, amp, e) ==
    LET possible == \A n \in 1..Len(e.seq) : ses.signs[n][e.seq[n] + 1] # 0
        bits == SumZ([n \in 1..Len(ses.bits) |-> ses.bits[n]])
    IN  IF ~possible THEN IF e.logp = "-inf" THEN "ok" ELSE "impossible sequence"
        ELSE IF e.logp = "bad" THEN "log probability is not finite"
        ELSE IF e.logp # ToString(0 - bits) THEN "log probability" ELSE "ok"

LogNorm(ses, amp, e) ==
    LET bits == SumZ([n \in 1..Len(ses.bits) |-> ses.bits[n]])
    IN  IF e.shift # 2 * SumZ(ses.exp) + bits THEN "exponent"
        ELSE IF e.z # (amp * amp) % P THEN "log norm" ELSE "ok"

Step(ses, x, e) ==
    [st |-> x,
     out |->
       CASE e.op = "product" ->
              LET v == Product(ses, x, e)
              IN  IF v = "ok" THEN "ok" ELSE v \o " (" \o e.how \o ")"
         [] e.op = "logp" ->
              LET v == LogProb(ses, x, e)
              IN  IF v = "ok" THEN "ok" ELSE v \o " (" \o e.how \o ")"
         [] e.op = "lognorm" -> LogNorm(ses, x, e)
         [] OTHER -> "unknown event"]

INSTANCE TraceRun WITH StartOp <- Start, StepOp <- Step
=============================================================================
