------------------------------- MODULE Valid -------------------------------
(***************************************************************************)
(* The documented domains of the public constructors and functions (C22):  *)
(* Valid(f, a) says whether calling f with the arguments a has to succeed; *)
(* otherwise it has to raise an error. Shapes are sequences of integers,   *)
(* options which may be missing come with a flag.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Last(s) == s[Len(s)]
Drop(s, n) == SubSeq(s, 1, Len(s) - n)
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Mul(_)
Mul(s) == IF s = <<>> THEN 1 ELSE Head(s) * Mul(Tail(s))

\* Right-aligned broadcasting of two shapes
BFits(x, y) ==
    \A i \in 1..Len(x) : i <= Len(y) =>
        LET u == x[Len(x) - i + 1] v == y[Len(y) - i + 1] IN u = v \/ u = 1 \/ v = 1

\* Does x broadcast to exactly y?
BInto(x, y) ==
    /\ Len(x) <= Len(y)
    /\ \A i \in 1..Len(x) : LET u == x[Len(x) - i + 1] v == y[Len(y) - i + 1] IN u = v \/ u = 1

(***************************************************************************)
(* Supervised models                                                       *)
(***************************************************************************)
MpsOk(a) ==
    /\ a.haslabel => a.label >= 0 /\ a.label <= a.N
    /\ a.path = "none" \/ (a.path \in {"list", "tensor"} /\ a.plen = a.N)

MpsInputOk(a) ==
    /\ a.kind = "tensor"
    /\ Len(a.shape) \in {2, 3}
    /\ IF a.haspath THEN a.pmax < a.shape[2] ELSE a.shape[2] = a.N
    /\ Len(a.shape) = 3 => a.shape[3] = a.d
    /\ Len(a.shape) = 2 => a.hasmap \/ a.d = 2

TiOk(a) == a.ends = "false" \/ (a.ends = "true" /\ a.O <= a.D)

TiTensorOk(a) ==
    /\ Len(a.shape) \in {2, 3}
    /\ Len(a.shape) = 3 => a.shape[3] = a.d
    /\ Len(a.shape) = 2 => a.hasmap \/ a.d = 2

\* Items of a list are [tensor, shape]
TiListOk(a) ==
    /\ a.items # <<>>
    /\ \A i \in 1..Len(a.items) :
         LET t == a.items[i] IN
         /\ t.tensor
         /\ Len(t.shape) = Len(a.items[1].shape)
         /\ Len(t.shape) \in {1, 2}
         /\ Len(t.shape) = 2 => t.shape[2] = a.d
         /\ Len(t.shape) = 1 => a.hasmap \/ a.d = 2
         /\ a.pads \/ t.shape[1] = a.items[1].shape[1]

TiInputOk(a) ==
    CASE a.kind = "tensor" -> TiTensorOk(a)
      [] a.kind = "list" -> TiListOk(a)
      [] OTHER -> FALSE

MapOk(a) == a.tensor /\ a.shape = <<a.d>>

(***************************************************************************)
(* Modules and contractables                                               *)
(***************************************************************************)
ModulesOk(a) == a.kind = "list" /\ a.items # <<>> /\ \A i \in 1..Len(a.items) : a.items[i]

RegionOk(a) ==
    /\ Len(a.shape) = 4
    /\ a.shape[2] = a.shape[3]
    /\ a.bias \in {"off", "none"} \/ (a.bias = "tensor" /\ a.brank \in {2, 3})

RegionInputOk(a) == Len(a.shape) = 3 /\ a.shape[2] = a.N /\ a.shape[3] = a.d

SiteInputOk(a) == Len(a.shape) = 2 /\ a.shape[2] = a.d

InitialOk(a) == (a.hasfill => a.fill >= 0 /\ a.fill <= a.D) /\ a.bool
TerminalOk(a) == (a.fixed => a.O <= a.D) /\ a.bool

\* Number of indices without the batch index
Indices(cls) ==
    CASE cls \in {"MatRegion", "OutputCore"} -> 3
      [] cls \in {"SingleMat", "OutputMat"} -> 2
      [] cls = "EdgeVec" -> 1

\* a.size: has a batch size been set?
ContractableOk(a) ==
    /\ Len(a.shape) = Indices(a.cls) + 1 \/ (Len(a.shape) = Indices(a.cls) /\ a.size)
    /\ a.cls = "MatRegion" => Last(a.shape) = Last(Drop(a.shape, 1))

BondOk(a) ==
    LET n == Len(a.labels) b == "b" \in Elems(a.labels)
    IN  \/ ~b /\ n = Len(a.shape) /\ a.size
        \/ b /\ a.labels[1] = "b" /\ n = Len(a.shape) + 1 /\ a.size
        \/ b /\ a.labels[1] = "b" /\ n = Len(a.shape)

(***************************************************************************)
(* Initialisers and decompositions                                         *)
(***************************************************************************)
InitOk(a) ==
    /\ Len(a.shape) = Len(a.labels)
    /\ Distinct(a.labels)
    /\ a.method \in {"random_zero", "random_eye", "min_random_eye"}
    /\ a.method # "random_zero" => {"l", "r"} \subseteq Elems(a.labels)

CoreInitOk(a) ==
    /\ Len(a.shape) >= 3
    /\ Last(a.shape) = Last(Drop(a.shape, 1)) \/ Mul(Drop(a.shape, 3)) = 1

\* "init->left,right": every index once on one side, and one new bond
SvdStringOk(a) ==
    LET new == Elems(a.left) \cap Elems(a.right)
    IN  /\ a.arrows = 1 /\ a.parts = 2
        /\ Distinct(a.init) /\ Distinct(a.left) /\ Distinct(a.right)
        /\ Cardinality(new) = 1
        /\ new \cap Elems(a.init) = {}
        /\ (Elems(a.left) \cup Elems(a.right)) \ new = Elems(a.init)

SvdOk(a) ==
    /\ SvdStringOk(a)
    /\ Len(a.shape) = Len(a.init)
    /\ a.above > 0                  \* singular values which reach the cutoff
    /\ a.hasvec => a.vlen = a.vwant

(***************************************************************************)
(* Generative models                                                       *)
(***************************************************************************)
ProbOk(a) ==
    /\ a.n > 0 /\ a.d > 0 /\ a.D > 0
    /\ a.method \in {"near_eye", "normal"}
    /\ CASE a.emb = "none" -> TRUE
         [] a.emb = "module" -> a.edim = a.d    \* fixed embedding
         [] a.emb = "fun" -> a.domain /\ a.edim = a.d

\* Inputs of a model without embedding; low, high: range of the symbols
ProbInputOk(a) ==
    /\ Len(a.shape) \in {2, 3}
    /\ a.fixedlen => a.shape[2] = a.n
    /\ Len(a.shape) = 3 => a.shape[3] = a.d
    /\ Len(a.shape) = 2 => a.high < a.d
    /\ ~(a.slim /\ ~a.parallel /\ a.bias)

DomainOk(a) == IF a.cont THEN a.hasmin /\ a.max > a.min ELSE a.max >= 0

MlpOk(a) == a.isint \/ a.hidden = a.layers - 1

(***************************************************************************)
(* Products and broadcasting                                               *)
(***************************************************************************)
\* mats: sequence of [rows, cols]; row vector l, column vector r
ProductOk(a) ==
    /\ a.hasl \/ a.hasr \/ a.mats # <<>>
    /\ \A i \in 1..(Len(a.mats) - 1) : a.mats[i][2] = a.mats[i + 1][1]
    /\ a.hasl /\ a.mats # <<>> => a.l = a.mats[1][1]
    /\ a.hasr /\ a.mats # <<>> => a.r = Last(a.mats)[2]
    /\ a.hasl /\ a.hasr /\ a.mats = <<>> => a.l = a.r

BroadcastOk(a) ==
    /\ a.list
    /\ Len(a.shapes) = Len(a.nnb)
    /\ \A i \in 1..Len(a.nnb) : a.nnb[i] >= 0 /\ Len(a.shapes[i]) >= a.nnb[i]
    /\ \A i, j \in 1..Len(a.shapes) : BFits(Drop(a.shapes[i], a.nnb[i]), Drop(a.shapes[j], a.nnb[j]))

BatchToOk(a) ==
    /\ Len(a.shape) >= a.nnb
    /\ a.nnb >= 0
    /\ BInto(Drop(a.shape, a.nnb), a.batch)

RealOk(a) == ~a.cplx \/ ~a.imag

Valid(f, a) ==
    CASE f = "mps" -> MpsOk(a)
      [] f = "mps input" -> MpsInputOk(a)
      [] f = "ti" -> TiOk(a)
      [] f = "ti input" -> TiInputOk(a)
      [] f = "map" -> MapOk(a)
      [] f = "modules" -> ModulesOk(a)
      [] f = "region" -> RegionOk(a)
      [] f = "region input" -> RegionInputOk(a)
      [] f = "site input" -> SiteInputOk(a)
      [] f = "initial" -> InitialOk(a)
      [] f = "terminal" -> TerminalOk(a)
      [] f = "contractable" -> ContractableOk(a)
      [] f = "bond string" -> BondOk(a)
      [] f = "init" -> InitOk(a)
      [] f = "core init" -> CoreInitOk(a)
      [] f = "svd" -> SvdOk(a)
      [] f = "prob" -> ProbOk(a)
      [] f = "prob input" -> ProbInputOk(a)
      [] f = "domain" -> DomainOk(a)
      [] f = "mlp" -> MlpOk(a)
      [] f = "product" -> ProductOk(a)
      [] f = "broadcast" -> BroadcastOk(a)
      [] f = "batch to" -> BatchToOk(a)
      [] f = "real" -> RealOk(a)
=============================================================================
