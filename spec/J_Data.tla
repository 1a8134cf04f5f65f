------------------------------- MODULE J_Data -------------------------------
(***************************************************************************)
(* Trace validation for data utilities and built-in embeddings (C23).      *)
(***************************************************************************)
EXTENDS DataOps, TraceFile

VARIABLES s, k, st, out

V(v) == [st |-> 0, out |-> v]

RowsOk(n, labels, rows) ==
    /\ Len(rows) = Len(labels)
    /\ \A i \in 1..Len(rows) : rows[i] = Unit(n, labels[i] + 1)

\* Number of parameters of a multilayer perceptron with these widths
RECURSIVE Layers(_)
Layers(w) == IF Len(w) < 2 THEN <<>> ELSE <<<<w[2], w[1]>>, <<w[2]>>>> \o Layers(Tail(w))

Step(ses, x, e) ==
    V(CASE e.op = "onehot" ->
             IF e.shape # e.lead \o <<e.max>> THEN "shape of one-hot vectors"
             ELSE IF ~RowsOk(e.max, e.labels, e.rows) THEN "one-hot vectors" ELSE "ok"
        [] e.op = "shuffle" ->
             \* Items are numbered, in the data and in the labels
             IF e.dshape # e.din \/ e.lshape # e.lin THEN "shape of shuffled data"
             ELSE IF ~e.whole THEN "an item was torn apart"
             ELSE IF e.data # e.labels THEN "data and labels were shuffled differently"
             ELSE IF ~Reordered(e.data, e.before) THEN "items were lost or repeated" ELSE "ok"
        [] e.op = "stripes" ->
             IF ~Split(e.n, Len(e.test), Len(e.train)) THEN "sizes of the data sets"
             ELSE IF ~Complete(e.n, e.test \o e.train) THEN "images or labels of the data set" ELSE "ok"
        [] e.op = "counts" ->
             \* Large images: number of images, of different ones, of stripes
             \* with the right label and of constant ones
             IF ~Split(e.n, e.ntest, e.ntrain) THEN "sizes of the data sets"
             ELSE IF e.distinct # e.ntest + e.ntrain \/ e.right # e.distinct \/ e.constant # 0
             THEN "images or labels of the data set" ELSE "ok"
        [] e.op = "trig" ->
             IF e.shape # e.lead \o <<e.d>> THEN "shape of the trigonometric embedding"
             ELSE IF \E i \in 1..Len(e.points) :
                       LET t == e.points[i] IN
                       \/ t.squares # TLCEval(TrigSquaresMod(e.d, t.p, t.q, 46337))
                       \/ \E j \in 1..e.d :
                            /\ t.squares[j] # 0
                            /\ t.signs[j] # Pow(t.csign, e.d - j) * Pow(t.ssign, j - 1)
             THEN "trigonometric embedding" ELSE "ok"
        [] e.op = "mlp" ->
             IF e.params # Layers(<<1>> \o e.hidden \o <<e.d>>) THEN "layers of the perceptron"
             ELSE IF e.shape # e.lead \o <<e.d>> \/ ~e.inside THEN "values of the perceptron"
             ELSE IF ~e.same THEN "the perceptron isn't the composition of its layers" ELSE "ok"
        [] e.op = "fact" -> IF e.holds THEN "ok" ELSE e.what
        [] OTHER -> "unknown event")

StartOf(ses) == 0
INSTANCE TraceRun WITH StartOp <- StartOf, StepOp <- Step
=============================================================================
