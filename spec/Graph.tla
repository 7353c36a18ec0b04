-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* The reactive computation graph as its users see it.                      *)
(*                                                                          *)
(* Leaves (variables, placeholders, constants) hold tensors; operation      *)
(* nodes denote a function of their arguments.  The specification keeps,    *)
(* for every node, the value its defining expression has over the CURRENT   *)
(* leaf contents (cur); evaluating a node must return exactly that,         *)
(* whatever sequence of building, assigning, cloning, deleting, freezing    *)
(* and evaluating came before.                                              *)
(*                                                                          *)
(* Building applies the documented simplifications (identities, constant    *)
(* folding) and node sharing; "same" events record which handles must be    *)
(* one and the same node.                                                   *)
(***************************************************************************)
EXTENDS Enc

CONSTANTS MaxSteps,    \* behaviours have this many steps
          MaxNodes,    \* nodes per behaviour
          Shapes,      \* shapes of fresh leaves
          Kinds,       \* sequence of action kinds; repeat one to weight it
          UnOps, BinOps, ScalOps, TransOps,  \* operations to build from
          LeafKinds,   \* kinds of fresh leaves
          FirstLeaves, \* a behaviour starts with this many leaves
          Wide,        \* use scalar operands that differ by very little
          Positive     \* leaves only hold positive numbers

VARIABLES nodes,   \* sequence of node records
          cur,     \* node -> value over current leaf contents (NoTensor: not computable yet)
          snap,    \* node -> value when its group was frozen
          frozen,  \* frozen groups
          silent,  \* leaves changed without notifying their dependents
          updaters,\* sequence of prepared assignments
          hist,    \* events so far
          step

vars == <<nodes, cur, snap, frozen, silent, updaters, hist, step>>
view == <<nodes, cur, snap, frozen, silent, updaters, step>>

(*--------------------------- node bookkeeping ---------------------------*)
N == Len(nodes)
Alive(i) == nodes[i].al
IsLeaf(i) == nodes[i].c \in {"var", "ph", "const"}
IsConst(i) == nodes[i].c = "const"
IsOp(i) == nodes[i].c = "op"
IsGrad(i) == nodes[i].c = "grad"
Usable == {i \in 1..N : Alive(i) /\ nodes[i].h /\ ~IsGrad(i)}
Vars == {i \in 1..N : Alive(i) /\ nodes[i].h /\ nodes[i].c = "var"}
Phs == {i \in 1..N : Alive(i) /\ nodes[i].h /\ nodes[i].c = "ph"}
Ops == {i \in Usable : IsOp(i)}
Good(i) == cur[i].s # <<>>

RECURSIVE Descends(_, _, _)
Descends(ns, i, j) == \* node i depends on node j (or is it)
  i = j \/ \E k \in 1..Len(ns[i].a) : Descends(ns, ns[i].a[k], j)
RECURSIVE LeavesOf(_, _)
LeavesOf(ns, i) == IF ns[i].a = <<>> THEN {i}
                   ELSE UNION {LeavesOf(ns, ns[i].a[k]) : k \in 1..Len(ns[i].a)}
(* the leaves a node follows when differentiated: what is held constant has none *)
RECURSIVE Follows(_, _)
Follows(ns, i) == IF ns[i].a = <<>> THEN {i} ELSE IF ns[i].op = "as_constant" THEN {}
                  ELSE UNION {Follows(ns, ns[i].a[k]) : k \in 1..Len(ns[i].a)}
Dead(i) == {j \in 1..N : Descends(nodes, j, i)}

Rec(c, op, a, p, q, sh, g, h) ==
  [c |-> c, op |-> op, a |-> a, p |-> p, q |-> q, sh |-> sh, g |-> g, h |-> h, al |-> TRUE, part |-> 0]

(*----------------------- meaning of an operation ------------------------*)
(* reductions by a function the caller passes in, under a name of its own    *)
(* ("fold", "argf") or under none ("foldu", "argfu"); q[1] says which        *)
(* function, q[2] the dimension (none: all elements)                         *)
Folds == {"fold", "foldu"}
Searches == {"argf", "argfu"}
Collect(f, x, y) == CASE f = 0 -> Min2(x, y) [] f = 1 -> Mul(x, y) [] f = 2 -> y [] f = 3 -> Sub(x, y)
(* nothing tells two unnamed functions apart, so their nodes are never shared *)
Unnamed == {"foldu", "argfu"}
Sem(op, p, q, ts) ==
  CASE op \in Fun1Ops -> Map1(LAMBDA x : Fun1(op, x), ts[1])
    [] op = "neg" -> Map1(Neg, ts[1])
    [] op = "pos" -> Map1(LAMBDA x : x, ts[1])
    [] op \in {"identity", "as_constant"} -> IF op = "identity" THEN Map1(LAMBDA x : x, ts[1]) ELSE ts[1]
    [] op = "pow" -> Map1(LAMBDA x : Pow(x, p[1]), ts[1])
    [] op = "clip_val" -> Map1(LAMBDA x : Clip(x, p[1], p[2]), ts[1])
    [] op = "addl" -> Map1(LAMBDA x : Add(p[1], x), ts[1])
    [] op = "addr" -> Map1(LAMBDA x : Add(x, p[1]), ts[1])
    [] op = "subl" -> Map1(LAMBDA x : Sub(p[1], x), ts[1])
    [] op = "subr" -> Map1(LAMBDA x : Sub(x, p[1]), ts[1])
    [] op = "mull" -> Map1(LAMBDA x : Mul(p[1], x), ts[1])
    [] op = "mulr" -> Map1(LAMBDA x : Mul(x, p[1]), ts[1])
    [] op = "divl" -> Map1(LAMBDA x : Div(p[1], x), ts[1])
    [] op = "divr" -> Map1(LAMBDA x : Div(x, p[1]), ts[1])
    [] op = "ltl" -> Map1(LAMBDA x : Cmp("lt", p[1], x), ts[1])
    [] op = "ltr" -> Map1(LAMBDA x : Cmp("lt", x, p[1]), ts[1])
    [] op = "gtl" -> Map1(LAMBDA x : Cmp("gt", p[1], x), ts[1])
    [] op = "gtr" -> Map1(LAMBDA x : Cmp("gt", x, p[1]), ts[1])
    [] op = "eql" -> Map1(LAMBDA x : Cmp("eq", p[1], x), ts[1])
    [] op = "eqr" -> Map1(LAMBDA x : Cmp("eq", x, p[1]), ts[1])
    [] op = "neql" -> Map1(LAMBDA x : Cmp("neq", p[1], x), ts[1])
    [] op = "neqr" -> Map1(LAMBDA x : Cmp("neq", x, p[1]), ts[1])
    [] op = "add" -> Map2(Add, ts[1], ts[2])
    [] op = "sub" -> Map2(Sub, ts[1], ts[2])
    [] op = "mul" -> Map2(Mul, ts[1], ts[2])
    [] op = "div" -> Map2(Div, ts[1], ts[2])
    [] op \in {"lt", "gt", "eq", "neq"} -> Map2(LAMBDA x, y : Cmp(op, x, y), ts[1], ts[2])
    [] op = "l2norm" -> Scalar(L2(ts[1]))
    [] op = "clipn" -> Map1(LAMBDA x :  \* second stage of clip_norm: args (l2norm, a)
                          LET l == ts[1].d[1] IN
                          IF IsX(l) THEN X ELSE T2("clipn", x, T2("pair", l, p[1])), ts[2])
    [] op = "transpose" -> Transpose(ts[1], q[1], q[2])
    [] op = "extend" -> Extend(ts[1], q[1], q[2])
    [] op = "sum" -> IF q = <<>> THEN ReduceAll(SumSeq, ts[1]) ELSE ReduceDim(SumSeq, ts[1], q[1])
    [] op = "max" -> IF q = <<>> THEN ReduceAll(MaxSeq, ts[1]) ELSE ReduceDim(MaxSeq, ts[1], q[1])
    [] op = "count" -> Scalar(I(IF q = <<>> THEN NElems(ts[1].s) ELSE Dim(ts[1].s, q[1] + 1)))
    [] op = "argmax" -> IF q = <<>> THEN ReduceAll(ArgMaxSeq, ts[1]) ELSE ReduceDim(ArgMaxSeq, ts[1], q[1])
    [] op \in Folds -> LET f(l) == FoldL(LAMBDA x, y : Collect(q[1], x, y), l) IN
         IF Len(q) = 1 THEN ReduceAll(f, ts[1]) ELSE ReduceDim(f, ts[1], q[2])
    [] op \in Searches -> LET f(l) == IF q[1] = 0 THEN ArgMinSeq(l) ELSE I(Len(l)) IN
         IF Len(q) = 1 THEN ReduceAll(f, ts[1]) ELSE ReduceDim(f, ts[1], q[2])
    [] op = "flip" -> Flip(ts[1], {q[k] : k \in 1..Len(q)})
    [] op = "fit" -> Fit(ts[1], ts[2].s)
    [] op = "matmul" -> Matmul(ts[1], ts[2])
    [] op = "cross" -> CrossCorr(ts[1], ts[2], q[1], q[2])
    [] op = "add_a" -> Axial(Add, ts[1], ts[2], q[1])
    [] op = "add_b" -> Axial(LAMBDA t, f : Add(f, t), ts[2], ts[1], q[1])
    [] op = "sub_a" -> Axial(Sub, ts[1], ts[2], q[1])
    [] op = "sub_b" -> Axial(LAMBDA t, f : Sub(f, t), ts[2], ts[1], q[1])
    [] op = "mul_a" -> Axial(Mul, ts[1], ts[2], q[1])
    [] op = "mul_b" -> Axial(LAMBDA t, f : Mul(f, t), ts[2], ts[1], q[1])
    [] op = "div_a" -> Axial(Div, ts[1], ts[2], q[1])
    [] op = "div_b" -> Axial(LAMBDA t, f : Div(f, t), ts[2], ts[1], q[1])

AxialA == {"add_a", "sub_a", "mul_a", "div_a"}
AxialB == {"add_b", "sub_b", "mul_b", "div_b"}
ElemBin == {"add", "sub", "mul", "div", "lt", "gt", "eq", "neq"}

(* may op be applied to arguments of these shapes? *)
ShapeOK(op, q, ss) ==
  CASE op \in ElemBin -> Elem2OK(ss[1], ss[2])
    [] op \in AxialA -> AxialOK(ss[1], ss[2], q[1])
    [] op \in AxialB -> AxialOK(ss[2], ss[1], q[1])
    [] op = "matmul" -> MatmulOK(ss[1], ss[2])
    [] op \in {"cross", "conv"} -> CrossOK(ss[1], ss[2], q[1], q[2])
    [] op = "argmax" -> q = <<>> \/ q[1] < Len(ss[1])
    [] op \in Searches -> Len(q) = 1 \/ q[2] < Len(ss[1])
    [] op = "flip" -> \A k \in 1..Len(q) : q[k] < Len(ss[1])
    [] op = "extend" -> NElems(ss[1]) * q[2] <= 12 /\ q[1] <= 2
    [] OTHER -> TRUE
OutShape(op, p, q, ss) == Sem(op, p, q, [k \in 1..Len(ss) |-> Fill(ss[k], Zero)]).s

Eval1(ns, c, i) ==   \* value of node i from the values c of its arguments
  LET n == ns[i] IN
  IF \E k \in 1..Len(n.a) : c[n.a[k]].s = <<>> THEN NoTensor
  ELSE Sem(n.op, n.p, n.q, [k \in 1..Len(n.a) |-> c[n.a[k]]])
RECURSIVE Recompute(_, _, _)
Recompute(ns, c, i) ==
  IF i > Len(ns) THEN c
  ELSE Recompute(ns, IF ns[i].c = "op" /\ ns[i].al THEN [c EXCEPT ![i] = Eval1(ns, c, i)] ELSE c, i + 1)

(*----------------------- derivative of an expression --------------------*)
(* GradOf(ns, c, f, w): d(sum of f's elements)/d(element e of leaf w), as   *)
(* a tensor of w's shape; forward mode, one seed per element of w.          *)
Z(t) == Fill(t.s, Zero)
DMap(op, p, x, dx) ==
  CASE op \in Fun1Ops -> IF op = "round" THEN X ELSE Mul(DFun1(op, x), dx)
    [] op \in {"neg", "subl"} -> Neg(dx)
    [] op \in {"pos", "identity", "addl", "addr", "subr"} -> dx
    [] op = "pow" -> Mul(DPow(x, p[1]), dx)
    [] op \in {"mull", "mulr"} -> Mul(p[1], dx)
    [] op = "divl" -> Neg(Div(Mul(p[1], dx), Mul(x, x)))
    [] op = "divr" -> Div(dx, p[1])
DSem(op, p, q, ts, ds) ==
  CASE op \in {"add", "sub"} -> Sem(op, p, q, ds)
    [] op = "mul" -> Map2(Add, Map2(Mul, ds[1], ts[2]), Map2(Mul, ts[1], ds[2]))
    [] op = "div" -> Map2(Div, Map2(Sub, Map2(Mul, ds[1], ts[2]), Map2(Mul, ts[1], ds[2])),
                               Map2(Mul, ts[2], ts[2]))
    [] op = "matmul" -> Map2(Add, Matmul(ds[1], ts[2]), Matmul(ts[1], ds[2]))
    [] op \in {"transpose", "extend", "sum", "flip", "add_a", "add_b", "sub_a", "sub_b"} -> Sem(op, p, q, ds)
    [] op \in {"mul_a", "mul_b"} -> Map2(Add, Sem(op, p, q, <<ds[1], ts[2]>>), Sem(op, p, q, <<ts[1], ds[2]>>))
    [] op = "div_a" -> Map2(Sub, Sem(op, p, q, <<ds[1], ts[2]>>), Sem("mul_a", p, q, <<ts[1], Map2(Div, ds[2], Map2(Mul, ts[2], ts[2]))>>))
    [] op = "div_b" -> Map2(Sub, Sem(op, p, q, <<ds[1], ts[2]>>), Sem("mul_b", p, q, <<ts[1], Map2(Div, ds[2], Map2(Mul, ts[2], ts[2]))>>))
    [] op = "count" -> Scalar(Zero)
    [] op = "as_constant" -> Z(ts[1])
    [] OTHER -> LET s == Elem1Shape(ts[1].s) IN Tens(s, LAMBDA i : DMap(op, p, ts[1].d[i + 1], ds[1].d[i + 1]))
RECURSIVE DUpTo(_, _, _, _, _, _)
DUpTo(ns, c, f, w, d, i) ==
  IF i > f THEN d
  ELSE DUpTo(ns, c, f, w,
    IF ~ns[i].al \/ c[i].s = <<>> \/ ns[i].c # "op" \/ ~Descends(ns, f, i) \/ ~Descends(ns, i, w) THEN d
    ELSE [d EXCEPT ![i] = DSem(ns[i].op, ns[i].p, ns[i].q,
                               [k \in 1..Len(ns[i].a) |-> c[ns[i].a[k]]],
                               [k \in 1..Len(ns[i].a) |-> d[ns[i].a[k]]])], i + 1)
GradOf(ns, c, f, w) ==
  Tens(c[w].s, LAMBDA e :
    LET d0 == [i \in 1..Len(ns) |->
                IF i = w THEN [s |-> c[w].s, d |-> [k \in 1..Len(c[w].d) |-> IF k = e + 1 THEN One ELSE Zero]]
                ELSE Z(c[i])]
        d == DUpTo(ns, c, f, w, d0, 1)
    IN FoldL(Add, d[f].d))

(*------------------------------ building --------------------------------*)
(* A build result is [ns, cs, gs, i]: nodes, values, and the resulting node *)
CommOps == {"add", "mul", "add_a", "add_b", "mul_a", "mul_b"}
Match(ns, op, a, p, q) ==
  {j \in 1..Len(ns) : op \notin Unnamed /\ ns[j].al /\ ns[j].c = "op" /\ ns[j].op = op /\ ns[j].p = p /\ ns[j].q = q /\
      (ns[j].a = a \/ (op \in CommOps /\ Len(a) = 2 /\ ns[j].a = <<a[2], a[1]>>))}

Relabel(ns, from, to) == [k \in 1..Len(ns) |-> IF ns[k].g \in from THEN [ns[k] EXCEPT !.g = to] ELSE ns[k]]

NewConst(b, t) ==
  [ns |-> Append(b.ns, Rec("const", "const", <<>>, <<>>, <<>>, t.s, 0, FALSE)),
   cs |-> Append(b.cs, t), i |-> Len(b.ns) + 1, ok |-> b.ok]

Ret(b, i) == [b EXCEPT !.i = i]

(* find the shared node or make a new one *)
Share(b, op, a, p, q) ==
  LET m == Match(b.ns, op, a, p, q) IN
  IF ~ShapeOK(op, q, [k \in 1..Len(a) |-> b.ns[a[k]].sh]) THEN [b EXCEPT !.ok = FALSE]
  ELSE IF m # {} THEN Ret(b, CHOOSE j \in m : TRUE)
  ELSE LET new == Len(b.ns) + 1
           gs == {b.ns[a[k]].g : k \in 1..Len(a)} \ {0}
           v == IF \E k \in 1..Len(a) : b.cs[a[k]].s = <<>> THEN NoTensor
                ELSE Sem(op, p, q, [k \in 1..Len(a) |-> b.cs[a[k]]])
           r == Rec("op", op, a, p, q, IF v.s # <<>> THEN v.s ELSE OutShape(op, p, q, [k \in 1..Len(a) |-> b.ns[a[k]].sh]), new, FALSE)
           ns == Append(Relabel(b.ns, gs, new), r)
       IN [ns |-> ns, cs |-> Append(b.cs, v), i |-> new, ok |-> b.ok]

CVal(b, i) == b.cs[i].d[1]
CZero(b, i) == b.ns[i].c = "const" /\ Len(b.cs[i].d) = 1 /\ IsZero(b.cs[i].d[1])
COne(b, i) == b.ns[i].c = "const" /\ Len(b.cs[i].d) = 1 /\ IsOne(b.cs[i].d[1])
CScal(b, i) == b.ns[i].c = "const" /\ Len(b.cs[i].d) = 1
C(b, i) == b.ns[i].c = "const"
KScalar(b, x) == NewConst(b, Scalar(x))
(* constant folding to an inexact scalar: whether it is an identity element  *)
(* is up to rounding, so such constants are left out of behaviours          *)
Inexact(r, n) == \E k \in (n + 1)..Len(r.ns) : r.ns[k].c = "const" /\ Len(r.cs[k].d) = 1 /\ ~IsR(r.cs[k].d[1])
(* folding maps the elements and keeps the constant's shape *)
Fold(b, op, a, p) == NewConst(b, [s |-> b.cs[a].s, d |-> Sem(op, p, <<>>, <<[s |-> <<Len(b.cs[a].d)>>, d |-> b.cs[a].d]>>).d])
Bad(b) == [b EXCEPT !.ok = FALSE]   \* the request is rejected (throws)

RECURSIVE Build(_, _, _, _, _)
Build(b, op, a, p, q) ==
  LET x == a[1]
      y == IF Len(a) > 1 THEN a[2] ELSE a[1]
      t == IF Len(p) > 0 THEN p[1] ELSE Zero
      unary(o) == Build(b, o, <<y>>, <<CVal(b, x)>>, <<>>)  \* scalar constant on the left
      unaryR(o) == Build(b, o, <<x>>, <<CVal(b, y)>>, <<>>)
  IN
  CASE op \in Fun1Ops \cup {"pos", "clip_val", "ltl", "ltr", "gtl", "gtr", "eql", "eqr", "neql", "neqr"} ->
         IF C(b, x) THEN Fold(b, op, x, p) ELSE Share(b, op, a, p, q)
    [] op = "conv" ->   \* correlation with the flipped filter
         LET b1 == Build(b, "flip", <<y>>, <<>>, q) IN Build(b1, "cross", <<x, b1.i>>, <<>>, q)
    [] op = "neg" ->
         IF C(b, x) THEN Fold(b, op, x, p)
         ELSE IF b.ns[x].c = "op" /\ b.ns[x].op = "neg" THEN Ret(b, b.ns[x].a[1])
         ELSE Share(b, op, a, p, q)
    [] op = "pow" ->
         IF IsZero(t) THEN KScalar(b, One)
         ELSE IF IsOne(t) THEN Ret(b, x)
         ELSE IF C(b, x) THEN Fold(b, op, x, p) ELSE Share(b, op, a, p, q)
    [] op = "addl" ->
         IF IsZero(t) THEN Ret(b, x) ELSE IF CZero(b, x) THEN KScalar(b, t)
         ELSE IF C(b, x) THEN Fold(b, op, x, p) ELSE Share(b, op, a, p, q)
    [] op = "addr" ->
         IF CZero(b, x) THEN KScalar(b, t) ELSE IF C(b, x) THEN Fold(b, op, x, p)
         ELSE IF IsZero(t) THEN Ret(b, x) ELSE Share(b, op, a, p, q)
    [] op = "subl" ->
         IF IsZero(t) THEN Build(b, "neg", <<x>>, <<>>, <<>>)
         ELSE IF CZero(b, x) THEN KScalar(b, t)
         ELSE IF C(b, x) THEN Fold(b, op, x, p) ELSE Share(b, op, a, p, q)
    [] op = "subr" ->
         IF CZero(b, x) THEN KScalar(b, Neg(t)) ELSE IF C(b, x) THEN Fold(b, op, x, p)
         ELSE IF IsZero(t) THEN Ret(b, x) ELSE Share(b, op, a, p, q)
    [] op \in {"mull", "mulr"} ->
         IF C(b, x) THEN
           IF CZero(b, x) \/ IsZero(t) THEN KScalar(b, Zero)
           ELSE IF COne(b, x) THEN KScalar(b, t) ELSE Fold(b, op, x, p)
         ELSE IF IsZero(t) THEN KScalar(b, Zero)
         ELSE IF IsOne(t) THEN Ret(b, x)
         ELSE IF t = I(-1) THEN Build(b, "neg", <<x>>, <<>>, <<>>)
         ELSE Share(b, op, a, p, q)
    [] op = "divl" ->
         IF CZero(b, x) THEN Bad(b)
         ELSE IF COne(b, x) THEN KScalar(b, t) ELSE IF C(b, x) THEN Fold(b, op, x, p)
         ELSE IF IsZero(t) THEN KScalar(b, Zero) ELSE Share(b, op, a, p, q)
    [] op = "divr" ->
         IF CZero(b, x) /\ ~IsZero(t) THEN KScalar(b, Zero)
         ELSE IF IsZero(t) THEN Bad(b)
         ELSE IF C(b, x) THEN Fold(b, op, x, p)
         ELSE IF IsOne(t) THEN Ret(b, x) ELSE Share(b, op, a, p, q)
    [] op \in {"add"} \cup {"add_a", "add_b"} ->
         IF CZero(b, x) THEN Ret(b, y) ELSE IF CScal(b, x) THEN unary("addl")
         ELSE IF CZero(b, y) THEN Ret(b, x) ELSE IF CScal(b, y) THEN unaryR("addr")
         ELSE Share(b, op, a, p, q)
    [] op \in {"sub"} \cup {"sub_a", "sub_b"} ->
         IF x = y THEN KScalar(b, Zero)
         ELSE IF CZero(b, x) THEN Build(b, "neg", <<y>>, <<>>, <<>>)
         ELSE IF CScal(b, x) THEN unary("subl")
         ELSE IF CZero(b, y) THEN Ret(b, x) ELSE IF CScal(b, y) THEN unaryR("subr")
         ELSE Share(b, op, a, p, q)
    [] op \in {"mul"} \cup {"mul_a", "mul_b"} ->
         IF x = y THEN Build(b, "pow", <<x>>, <<I(2)>>, <<>>)
         ELSE IF CZero(b, x) THEN KScalar(b, Zero) ELSE IF CScal(b, x) THEN unary("mull")
         ELSE IF CZero(b, y) THEN KScalar(b, Zero) ELSE IF CScal(b, y) THEN unaryR("mulr")
         ELSE Share(b, op, a, p, q)
    [] op \in {"div"} \cup {"div_a", "div_b"} ->
         IF x = y THEN KScalar(b, One)
         ELSE IF CZero(b, x) THEN KScalar(b, Zero) ELSE IF CScal(b, x) THEN unary("divl")
         ELSE IF CZero(b, y) THEN Bad(b) ELSE IF CScal(b, y) THEN unaryR("divr")
         ELSE Share(b, op, a, p, q)
    [] op \in {"lt", "gt", "eq", "neq"} ->
         IF CScal(b, x) THEN unary(op \o "l") ELSE IF CScal(b, y) THEN unaryR(op \o "r")
         ELSE Share(b, op, a, p, q)
    [] op = "transpose" ->
         LET lo == IMin(q[1], q[2])  hi == IMax(q[1], q[2]) IN
         IF b.ns[x].c = "op" /\ b.ns[x].op = "transpose" /\ b.ns[x].q = <<lo, hi>> THEN Ret(b, b.ns[x].a[1])
         ELSE Share(b, op, a, p, <<lo, hi>>)
    [] op = "extend" ->
         IF q[2] = 0 THEN KScalar(b, Zero) ELSE IF q[2] = 1 THEN Ret(b, x) ELSE Share(b, op, a, p, q)
    [] op = "fit" -> IF CZero(b, x) THEN Ret(b, x) ELSE Share(b, op, a, p, q)
    [] op = "matmul" ->   \* q = <<transposeA, transposeB>> flags
         LET b1 == IF q[1] = 1 THEN Build(b, "transpose", <<x>>, <<>>, <<0, 1>>) ELSE Ret(b, x)
             xa == b1.i
             b2 == IF q[2] = 1 THEN Build(b1, "transpose", <<y>>, <<>>, <<0, 1>>) ELSE Ret(b1, y)
         IN Share(b2, "matmul", <<xa, b2.i>>, <<>>, <<>>)
    [] op = "l2norm" -> IF C(b, x) THEN KScalar(b, L2(b.cs[x])) ELSE Share(b, op, a, p, q)
    [] op = "clip_norm" ->
         IF C(b, x) THEN LET l == L2(b.cs[x]) IN
            NewConst(b, [s |-> b.cs[x].s, d |-> [k \in 1..Len(b.cs[x].d) |-> T2("clipn", b.cs[x].d[k], T2("pair", l, p[1]))]])
         ELSE LET b1 == Build(b, "l2norm", <<x>>, <<>>, <<>>) IN Share(b1, "clipn", <<b1.i, x>>, p, <<>>)
    [] op = "mean" ->
         LET b1 == Share(b, "sum", <<x>>, <<>>, q)
             s == b1.i
             b2 == Share(b1, "count", <<x>>, <<>>, q)
         IN Share(b2, "div", <<s, b2.i>>, <<>>, <<>>)
    [] OTHER -> Share(b, op, a, p, q)

(*------------------------------- events ---------------------------------*)
Tick == step' = step + 1
Skip == Tick /\ UNCHANGED <<nodes, cur, snap, frozen, silent, updaters, hist>>
Log(e) == hist' = Append(hist, e)

ValPool == IF Positive THEN {I(1), I(2), I(3), Q(1, 2), Q(3, 2)} ELSE {I(k) : k \in -3..3} \cup {Q(1, 2), Q(-3, 2)}
RECURSIVE RandSeq(_)
RandSeq(n) == IF n = 0 THEN <<>> ELSE Append(RandSeq(n - 1), RandomElement(ValPool))
AllSeq(n) == {[i \in 1..n |-> v] : v \in {I(0), I(2)}}
DataOf(n) == IF Mode = "one" THEN {RandSeq(n)} ELSE AllSeq(n)

AddLeaf(c, sh, t, part) ==
  /\ nodes' = Append(nodes, [Rec(c, c, <<>>, <<>>, <<>>, sh, 0, TRUE) EXCEPT !.part = part])
  /\ cur' = Append(cur, t)
  /\ snap' = Append(snap, NoTensor)

NewLeaf ==
  IF N >= MaxNodes THEN Skip ELSE
  \E s \in Pick(Shapes) : \E d \in DataOf(NElems(s)) :
  \E c \in Pick(LeafKinds) :
    LET sh == IF c = "const1" THEN <<1>> ELSE s
        dd == IF c = "const1" THEN <<d[1]>> ELSE d
        ph0 == IF c = "ph" THEN Pick({0, 1, 2}) ELSE {0} IN
    \E part \in ph0 :  \* placeholders may leave a dimension (or the whole shape) open
      /\ CASE c = "var" -> AddLeaf("var", sh, [s |-> sh, d |-> dd], 0)
           [] c = "var0" -> AddLeaf("var", sh, NoTensor, 0)
           [] c = "ph" -> AddLeaf("ph", sh, NoTensor, part)
           [] OTHER -> AddLeaf("const", sh, [s |-> sh, d |-> dd], 0)
      /\ Log([a |-> "leaf", c |-> c, h |-> N + 1, s |-> sh, part |-> part, d |-> EncT([s |-> sh, d |-> dd]).d])
      /\ Tick /\ UNCHANGED <<frozen, silent, updaters>>

(* does any operation node stay frozen?  differentiating is not modelled then *)
Frozen == frozen # {}
(* would building connect a frozen group to something new? (nothing is specified about that) *)
Thickens(ns) == \E k \in N + 1..Len(ns) : \E j \in 1..Len(ns[k].a) :
                  ns[k].a[j] <= N /\ nodes[ns[k].a[j]].c = "op" /\ nodes[ns[k].a[j]].g \in frozen

Small(i) == Len(cur[i].d) <= 12
Params(op) ==
  CASE Mode = "all" -> IF op = "pow" THEN {<<Zero>>, <<I(2)>>} ELSE IF op \in {"addl", "addr", "mull", "mulr"} THEN {<<Zero>>, <<One>>} ELSE {<<>>}
    [] Wide /\ op = "pow" -> {<<I(2)>>, <<Q(2097153, 1048576)>>, <<Q(2097155, 1048576)>>}
    [] Wide /\ op = "clip_val" -> {<<I(-1), Q(2097153, 128)>>, <<I(-1), Q(2097155, 128)>>, <<Q(-2097153, 128), I(2)>>, <<Q(-2097155, 128), I(2)>>}
    [] Wide /\ op = "clip_norm" -> {<<I(3)>>, <<Q(3145729, 1048576)>>, <<Q(3145731, 1048576)>>}
    [] op = "pow" -> {<<I(k)>> : k \in {-1, 0, 1, 2, 3}} \cup {<<Q(1, 2)>>}
    [] op = "clip_val" -> {<<I(-1), I(2)>>, <<Q(-1, 2), I(1)>>}
    [] op = "clip_norm" -> {<<I(1)>>, <<I(3)>>, <<I(50)>>}
    [] op \in {"eql", "eqr", "neql", "neqr", "ltl", "ltr", "gtl", "gtr"} -> {<<I(k)>> : k \in {-1, 0, 1}}
    [] op \in {"addl", "addr", "subl", "subr", "mull", "mulr", "divl", "divr"} ->
         IF Wide THEN {<<Q(1048591, 128)>>, <<Q(1048593, 128)>>, <<I(3)>>}
         ELSE {<<I(k)>> : k \in {-2, -1, 0, 1, 3}} \cup {<<Q(1, 2)>>}
    [] OTHER -> {<<>>}
DimParams(op) ==
  CASE Mode = "all" -> IF op \in {"transpose", "matmul"} THEN {<<0, 1>>} ELSE IF op = "flip" THEN {<<0>>} ELSE IF op = "sum" THEN {<<>>, <<0>>} ELSE {<<>>}
    [] op = "transpose" -> {<<0, 1>>, <<1, 0>>, <<0, 2>>, <<1, 2>>}
    [] op = "extend" -> {<<i, m>> : i \in 0..2, m \in 0..3}
    [] op \in {"sum", "max", "mean", "argmax"} -> {<<>>, <<0>>, <<1>>, <<2>>}
    [] op \in Folds -> {<<f>> : f \in 0..3} \cup {<<f, d>> : f \in 0..3, d \in 0..2}
    [] op \in Searches -> {<<f>> : f \in 0..1} \cup {<<f, d>> : f \in 0..1, d \in 0..2}
    [] op = "flip" -> {<<0>>, <<1>>, <<2>>, <<0, 1>>, <<1, 2>>, <<0, 1, 2>>}
    [] op \in {"cross", "conv"} -> {<<0, 1>>, <<1, 0>>, <<0, 2>>, <<1, 2>>}
    [] op = "matmul" -> {<<i, j>> : i \in 0..1, j \in 0..1}
    [] op \in AxialA \cup AxialB -> {<<0>>, <<1>>, <<2>>}
    [] OTHER -> {<<>>}
Binary(op) == op \in ElemBin \cup AxialA \cup AxialB \cup {"matmul", "fit", "cross", "conv"}
(* applications about which nothing is specified: 0/0 between constants, and *)
(* unary plus of a negative constant (see DESIGN.md, known findings)         *)
Unspecified(op, p, a) ==
  LET k(i) == nodes[i].c = "const"
      z(i) == k(i) /\ \A j \in 1..Len(cur[i].d) : IsZero(cur[i].d[j])
  IN CASE op = "pos" -> k(a[1]) /\ \E j \in 1..Len(cur[a[1]].d) : ~IsR(cur[a[1]].d[j]) \/ cur[a[1]].d[j].n < 0
       [] op \in {"div", "div_a", "div_b"} -> z(a[1]) /\ z(a[2])
       [] op \in {"divl", "divr"} -> z(a[1]) /\ IsZero(p[1])
       [] OTHER -> FALSE
(* argument tuples worth trying for op *)
TShape(s, f) == IF f = 1 THEN Swap(PadShape(s, 2), 1, 2) ELSE s
Cands(op, q) ==
  IF Binary(op) THEN {<<i, j>> \in Usable \X Usable :
       LET s1 == nodes[i].sh  s2 == nodes[j].sh IN
       CASE op = "matmul" -> MatmulOK(TShape(s1, q[1]), TShape(s2, q[2]))
         [] op \in AxialA \cup AxialB ->
              /\ ShapeOK(op, q, <<s1, s2>>)
              /\ i # j /\ ~(C([ns |-> nodes], i) /\ NElems(s1) = 1) /\ ~(C([ns |-> nodes], j) /\ NElems(s2) = 1)
         [] OTHER -> ShapeOK(op, q, <<s1, s2>>)}
  ELSE {<<i>> : i \in {i \in Usable :
         IF op = "transpose" THEN Len(nodes[i].sh) + 2 > q[2]
         ELSE ShapeOK(op, q, <<nodes[i].sh>>)}}

Alike(ns, i) == {i} \cup (IF ns[i].c = "op" THEN Match(ns, ns[i].op, ns[i].a, ns[i].p, ns[i].q) ELSE {})
(* which of several equal nodes (a node and its clone) is shared is left open, *)
(* so nothing is built upon such a choice, nor is a forgotten one picked up     *)
Inner(op) == CASE op = "mean" -> {"sum", "count"} [] op = "clip_norm" -> {"l2norm"} [] op = "matmul" -> {"transpose"} [] op = "conv" -> {"flip"} [] OTHER -> {}
Torn(op, r, alike) ==
  \/ Inner(op) # {} /\ \E i \in 1..N : nodes[i].al /\ nodes[i].c = "op" /\ nodes[i].op \in Inner(op)
                                   /\ \E j \in 1..i - 1 : nodes[j].al /\ nodes[j].c = "op" /\ nodes[j].op = nodes[i].op /\ nodes[j].a = nodes[i].a /\ nodes[j].q = nodes[i].q
  \/ r.i <= N /\ ~nodes[r.i].h /\ \E j \in alike : j <= N /\ j # r.i /\ nodes[j].al
DoBuild(opset) ==
  IF N >= MaxNodes \/ Usable = {} THEN Skip ELSE
  \E op \in Pick(opset) : \E q \in Pick(DimParams(op)) : \E p \in Pick(Params(op)) :
    LET cs == Cands(op, q) IN
    IF cs = {} THEN Skip ELSE
    \E a \in Pick(cs) :
      LET r == Build([ns |-> nodes, cs |-> cur, i |-> 0, ok |-> TRUE], op, a, p, q)
          alike == Alike(r.ns, r.i)
          raw == [a |-> "op", op |-> op, x |-> a, p |-> [k \in 1..Len(p) |-> EncS(p[k])], q |-> q]
      IN
      IF Unspecified(op, p, a) \/ Thickens(r.ns) \/ (r.ok /\ Torn(op, r, alike)) THEN Skip ELSE
      IF ~r.ok \/ Inexact(r, N) \/ (\E k \in 1..Len(r.ns) : k > N /\ Len(r.ns[k].sh) > 3)
      THEN IF ~r.ok /\ op \in {"div", "divl", "divr", "div_a", "div_b"}
           THEN Log([raw EXCEPT !.a = "opthrow"]) /\ Tick /\ UNCHANGED <<nodes, cur, snap, frozen, silent, updaters>>
           ELSE Skip
      ELSE /\ nodes' = [r.ns EXCEPT ![r.i].h = TRUE]
           /\ cur' = r.cs
           /\ snap' = snap \o [k \in 1..(Len(r.ns) - N) |-> NoTensor]
           /\ Log([raw EXCEPT !.a = "op"] @@
                  \* a scalar zero may be -0 in the implementation, which is another operand
                  [loose |-> (\E k \in 1..Len(r.ns[r.i].p) : IsZero(r.ns[r.i].p[k])) \/ \E j \in alike : j <= N /\ nodes[j].al /\ ~nodes[j].h,
                   h |-> r.i, new |-> r.i > N,
                   same |-> {j \in alike : j <= N /\ nodes[j].al /\ nodes[j].h /\ ~IsGrad(j)}])
           /\ Tick /\ UNCHANGED <<frozen, silent, updaters>>

(*--- what an evaluation must return ---*)
Tainted(i) == \E l \in silent : Descends(nodes, i, l) /\ ~IsLeaf(i)
Expected(i) ==
  IF IsOp(i) /\ nodes[i].g \in frozen THEN snap[i] ELSE cur[i]

EvalEvent(i) ==
  IF Tainted(i) THEN [a |-> "evalany", h |-> i]
  ELSE IF Expected(i).s = <<>> THEN [a |-> "evalnull", h |-> i]
  ELSE [a |-> "eval", h |-> i, e |-> EncT(Expected(i))]
DoEval ==
  IF Usable = {} THEN Skip ELSE
  \E i \in Pick(Usable) :
    /\ Log(EvalEvent(i))
    /\ Tick /\ UNCHANGED <<nodes, cur, snap, frozen, silent, updaters>>

DoShape ==
  IF Usable = {} THEN Skip ELSE
  \E i \in Pick(Usable) :
    IF IsLeaf(i) \/ Tainted(i) \/ (nodes[i].g \in frozen /\ snap[i].s = <<>>) THEN Skip ELSE
    /\ Log([a |-> "shape", h |-> i, s |-> IF Good(i) THEN nodes[i].sh ELSE <<>>])
    /\ Tick /\ UNCHANGED <<nodes, cur, snap, frozen, silent, updaters>>

(* what a node is computed from: the leaves it depends on *)
DoLeaves ==
  LET O == {i \in Usable : IsOp(i)} IN
  IF O = {} THEN Skip ELSE
  \E i \in Pick(O) :
    /\ Log([a |-> "leaves", h |-> i, on |-> {l \in Follows(nodes, i) : nodes[l].c \in {"var", "ph"}},
            off |-> {l \in Usable : nodes[l].c \in {"var", "ph"}} \ Follows(nodes, i)])
    /\ Tick /\ UNCHANGED <<nodes, cur, snap, frozen, silent, updaters>>

(*--- assignments ---*)
Combine(m, old, new) ==
  CASE m = "set" -> [s |-> old.s, d |-> new.d]
    [] m = "add" -> [s |-> old.s, d |-> Map2(Add, old, new).d]
    [] m = "sub" -> [s |-> old.s, d |-> Map2(Sub, old, new).d]
SetLeaf(l, t, notify) ==
  LET c1 == [cur EXCEPT ![l] = t] IN
  /\ cur' = Recompute(nodes, c1, 1)
  /\ silent' = IF notify THEN silent \ {l} ELSE silent \cup {l}
(* adding or subtracting a constant scalar zero does nothing, not even notify *)
Apply(l, m, new, isconst, notify) ==
  IF isconst /\ m # "set" /\ Len(new.d) = 1 /\ IsZero(new.d[1]) THEN UNCHANGED <<cur, silent>>
  ELSE SetLeaf(l, Combine(m, cur[l], new), notify)

DoInit ==
  LET S == {l \in Vars : Mode = "one" \/ ~Good(l)} IN
  IF S = {} THEN Skip ELSE
  \E l \in Pick(S) : \E v \in Pick(IF Mode = "one" THEN ValPool ELSE {One}) :
    /\ SetLeaf(l, Fill(nodes[l].sh, v), TRUE)
    /\ Log([a |-> "init", h |-> l, v |-> EncS(v)])
    /\ Tick /\ UNCHANGED <<nodes, snap, frozen, updaters>>

DoPh ==
  IF Phs = {} THEN Skip ELSE
  \E l \in Pick(Phs) : \E d \in DataOf(NElems(nodes[l].sh)) :
    /\ SetLeaf(l, [s |-> nodes[l].sh, d |-> d], TRUE)
    /\ Log([a |-> "ph", h |-> l, s |-> nodes[l].sh, t |-> nodes[l].part = 2 \/ step % 2 = 0, d |-> EncT([s |-> nodes[l].sh, d |-> d]).d])
    /\ Tick /\ UNCHANGED <<nodes, snap, frozen, updaters>>

DoAssignVec ==
  LET S == {l \in Vars : Good(l)} IN
  IF S = {} THEN Skip ELSE
  \E l \in Pick(S) : \E d \in DataOf(NElems(nodes[l].sh)) : \E m \in Pick({"set", "add", "sub"}) :
  \E nt \in Pick({TRUE, TRUE, FALSE}) :
    /\ Apply(l, m, [s |-> cur[l].s, d |-> d], TRUE, nt)
    /\ Log([a |-> "assignv", h |-> l, m |-> m, d |-> EncT([s |-> cur[l].s, d |-> d]).d, s |-> cur[l].s, nt |-> nt])
    /\ Tick /\ UNCHANGED <<nodes, snap, frozen, updaters>>
Assignable(l, i) == /\ Good(i) /\ nodes[i].sh = nodes[l].sh /\ ~Tainted(i)
                    /\ ~(nodes[i].g \in frozen /\ snap[i].s = <<>>)
DoAssignNode ==
  LET S == {li \in Vars \X Usable : Good(li[1]) /\ Assignable(li[1], li[2])} IN
  IF S = {} THEN Skip ELSE
  \E li \in Pick(S) : \E m \in Pick({"set", "add", "sub"}) : \E nt \in Pick({TRUE, TRUE, FALSE}) :
    LET l == li[1]  i == li[2]  new == Expected(i) IN
    /\ Apply(l, m, new, IsConst(i), nt)
    /\ Log([a |-> "assignn", h |-> l, x |-> i, m |-> m, nt |-> nt])
    /\ Tick /\ UNCHANGED <<nodes, snap, frozen, updaters>>
(* prepared assignments: built now, executed any number of times later *)
DoPrep ==
  LET S == {li \in Vars \X Usable : Good(li[1]) /\ nodes[li[1]].sh = nodes[li[2]].sh} IN
  IF S = {} \/ Len(updaters) >= 3 THEN Skip ELSE
  \E li \in Pick(S) : \E m \in Pick({"set", "add", "sub"}) :
    /\ updaters' = Append(updaters, [l |-> li[1], x |-> li[2], m |-> m])
    /\ Log([a |-> "prep", u |-> Len(updaters) + 1, h |-> li[1], x |-> li[2], m |-> m])
    /\ Tick /\ UNCHANGED <<nodes, cur, snap, frozen, silent>>
DoRun ==
  LET S == {u \in 1..Len(updaters) : updaters[u].l \in Vars /\ updaters[u].x \in Usable /\
              Assignable(updaters[u].l, updaters[u].x)} IN
  IF S = {} THEN Skip ELSE
  \E u \in Pick(S) : \E nt \in Pick({TRUE, TRUE, FALSE}) :
    LET l == updaters[u].l  IN
    /\ Apply(l, updaters[u].m, Expected(updaters[u].x), IsConst(updaters[u].x), nt)
    /\ Log([a |-> "run", u |-> u, nt |-> nt])
    /\ Tick /\ UNCHANGED <<nodes, snap, frozen, updaters>>
DoNotify ==
  IF {x \in silent : nodes[x].h} = {} THEN Skip ELSE
  \E l \in Pick({x \in silent : nodes[x].h}) :
    /\ silent' = silent \ {l}
    /\ Log([a |-> "notify", h |-> l])
    /\ Tick /\ UNCHANGED <<nodes, cur, snap, frozen, updaters>>

(*--- life cycle ---*)
(* deleting a node destroys everything computed from it, nothing else *)
DoDelete ==
  LET S == {i \in Usable : ~IsConst(i)} IN
  IF S = {} THEN Skip ELSE
  \E i \in Pick(S) :
    LET D == Dead(i) IN
    /\ nodes' = [j \in 1..N |-> IF j \in D \/ IsGrad(j) THEN [nodes[j] EXCEPT !.al = FALSE] ELSE nodes[j]]
    /\ silent' = silent \ D
    /\ Log([a |-> "delete", h |-> i,
            dead |-> {j \in D : nodes[j].h /\ nodes[j].al /\ ~IsGrad(j)},
            live |-> {j \in 1..N \ D : nodes[j].h /\ nodes[j].al /\ ~IsGrad(j)}])
    /\ Tick /\ UNCHANGED <<cur, snap, frozen, updaters>>
(* letting go of a handle never affects another node *)
DoDrop ==
  IF Cardinality(Usable) < 3 THEN Skip ELSE
  \E i \in Pick({i \in Usable : ~\E u \in 1..Len(updaters) : updaters[u].x = i \/ updaters[u].l = i} \cup {0}) :
    IF i = 0 THEN Skip ELSE
    /\ nodes' = [nodes EXCEPT ![i].h = FALSE,
                    ![i].al = IF IsConst(i) THEN \E j \in 1..N : nodes[j].al /\ i \in {nodes[j].a[k] : k \in 1..Len(nodes[j].a)} ELSE @]
    /\ Log([a |-> "drop", h |-> i])
    /\ Tick /\ UNCHANGED <<cur, snap, frozen, silent, updaters>>

(* handles may be assigned, copied and moved freely; no node is affected *)
DoHandle ==
  IF Usable = {} THEN Skip ELSE
  \E i \in Pick(Usable) : \E m \in Pick({"self", "copy", "assign", "move", "moveassign", "swap"}) : \E j \in Pick(Usable) :
    /\ Log([a |-> "handle", h |-> i, m |-> m, x |-> j])
    /\ Tick /\ UNCHANGED <<nodes, cur, snap, frozen, silent, updaters>>

DoClone ==
  IF Ops \cup Vars = {} \/ N >= MaxNodes THEN Skip ELSE
  LET S == {j \in Ops \cup {v \in Vars : nodes[v].h /\ Good(v)} : ~Tainted(j) /\ nodes[j].op # "count"} IN
  IF S = {} THEN Skip ELSE
  \E i \in Pick(S) :
    /\ nodes' = Append(nodes, [nodes[i] EXCEPT !.h = TRUE])
    /\ cur' = Append(cur, cur[i])
    /\ snap' = Append(snap, snap[i])
    /\ Log([a |-> "clone", x |-> i, h |-> N + 1])
    /\ Tick /\ UNCHANGED <<frozen, silent, updaters>>

(*--- freezing ---*)
DoFreeze ==
  LET S == {i \in Ops : nodes[i].g \notin frozen /\ ~\E j \in 1..N : nodes[j].al /\ IsOp(j) /\ nodes[j].g = nodes[i].g /\ Tainted(j)} IN
  IF S = {} THEN Skip ELSE
  \E i \in Pick(S) :
    /\ frozen' = frozen \cup {nodes[i].g}
    /\ snap' = [j \in 1..N |-> IF nodes[j].g = nodes[i].g THEN cur[j] ELSE snap[j]]
    /\ Log([a |-> "freeze", h |-> i])
    /\ Tick /\ UNCHANGED <<nodes, cur, silent, updaters>>
DoThaw ==
  LET S == {i \in Ops : nodes[i].g \in frozen} IN
  IF S = {} THEN Skip ELSE
  \E i \in Pick(S) :
    /\ frozen' = frozen \ {nodes[i].g}
    /\ Log([a |-> "thaw", h |-> i])
    /\ Tick /\ UNCHANGED <<nodes, cur, snap, silent, updaters>>

(*--- gradients ---*)
GradOps == {"neg", "pos", "sin", "cos", "tan", "csc", "sec", "cot", "exp", "sqrt", "log", "pow",
            "addl", "addr", "subl", "subr", "mull", "mulr", "divl", "divr", "add", "sub", "mul", "div"}
(* How node i depends on variable w, as far as its gradient is specified:     *)
(*   "none"  not at all                                                       *)
(*   "el"    elementwise on top of a spine: a sequence of shape-changing       *)
(*           operations every path from i down to w passes through            *)
(*   "sc"    a scalar computed from the sum of an "el" node                    *)
(*   "bad"   in a way about which nothing is specified (see DESIGN.md)         *)
GI(k, sp) == [k |-> k, sp |-> sp]
GInfo1(ns, g, i, w) ==
  LET n == ns[i]
      A == 1..Len(n.a)
      dep == {k \in A : g[n.a[k]].k # "none"}
      \* a transposed operand of a matrix product is part of the product
      arg(k) == IF n.op = "matmul" /\ ns[n.a[k]].op = "transpose" /\ ns[n.a[k]].q = <<0, 1>>
                THEN ns[n.a[k]].a[1] ELSE n.a[k]
      sps == {g[arg(k)].sp : k \in dep}
      ks == {g[arg(k)].k : k \in dep}
      sp == CHOOSE x \in sps : TRUE
      bad == GI("bad", <<>>)
  IN
  IF i = w THEN GI("el", <<>>)
  ELSE IF ~n.al \/ n.c # "op" \/ dep = {} \/ n.op \in {"count", "as_constant"} THEN GI("none", <<>>)
  ELSE IF "bad" \in ks \/ Cardinality(sps) > 1 \/ Cardinality(ks) > 1 THEN bad
  ELSE IF n.op \in GradOps THEN
    IF ks = {"el"} THEN (IF \A k \in dep : ns[n.a[k]].sh = n.sh THEN GI("el", sp) ELSE bad)
    ELSE (IF \A k \in A : NElems(ns[n.a[k]].sh) = 1 THEN GI("sc", sp) ELSE bad)
  ELSE IF ks # {"el"} THEN bad
  ELSE IF n.op = "sum" /\ n.q = <<>> THEN GI("sc", sp)
  ELSE IF n.op = "matmul" THEN GI("el", Append(sp, i))
  ELSE IF n.op \in AxialA \cup AxialB THEN
    LET thin == IF n.op \in AxialA THEN 1 ELSE 2
        full == 3 - thin IN
    IF dep = {full} THEN GI("el", sp)
    ELSE IF dep = {thin} /\ NElems(ns[n.a[thin]].sh) > 1 THEN GI("el", Append(sp, i))
    ELSE bad
  ELSE bad
RECURSIVE GInfoTo(_, _, _, _)
GInfoTo(ns, g, i, w) == IF i > Len(ns) THEN g ELSE GInfoTo(ns, Append(g, GInfo1(ns, g, i, w)), i + 1, w)
GInfo(ns, w) == GInfoTo(ns, <<>>, 1, w)
Derivable(len) == UNION {LET g == GInfo(nodes, w) IN
  {<<f, w>> : f \in {f \in Usable : g[f].k \in {"el", "sc", "none"} /\ ~IsConst(f) /\ Len(g[f].sp) >= len}} : w \in Vars}
DoDerive ==
  IF N >= MaxNodes \/ Frozen THEN Skip ELSE
  \E len \in Pick({0, 1, 2, 3}) :   \* prefers deeper spines
  LET S == Derivable(len) IN
  IF S = {} THEN Skip ELSE
  \E fw \in Pick(S) :
    /\ nodes' = Append(nodes, Rec("grad", "grad", fw, <<>>, <<>>, nodes[fw[2]].sh, 0, TRUE))
    /\ cur' = Append(cur, NoTensor) /\ snap' = Append(snap, NoTensor)
    /\ Log([a |-> "derive", h |-> N + 1, f |-> fw[1], w |-> fw[2]])
    /\ Tick /\ UNCHANGED <<frozen, silent, updaters>>
Gradients == {g \in 1..N : nodes[g].al /\ IsGrad(g) /\ ~Frozen /\ silent = {} /\
              \A l \in LeavesOf(nodes, nodes[g].a[1]) \cup {nodes[g].a[2]} : Good(l)}
GradEvent(g) == [a |-> "gradeval", h |-> g, e |-> EncT(GradOf(nodes, cur, nodes[g].a[1], nodes[g].a[2]))]
DoGradEval ==
  IF Gradients = {} THEN Skip ELSE
  \E g \in Pick(Gradients) :
    /\ Log(GradEvent(g))
    /\ Tick /\ UNCHANGED <<nodes, cur, snap, frozen, silent, updaters>>

Init ==
  /\ nodes = <<>> /\ cur = <<>> /\ snap = <<>> /\ frozen = {} /\ silent = {} /\ updaters = <<>>
  /\ hist = <<>> /\ step = 0

Act(k) ==
  CASE k = "leaf" -> NewLeaf
    [] k = "un" -> DoBuild(UnOps)
    [] k = "bin" -> DoBuild(BinOps)
    [] k = "scal" -> DoBuild(ScalOps)
    [] k = "trans" -> DoBuild(TransOps)
    [] k = "eval" -> DoEval
    [] k = "shape" -> DoShape
    [] k = "leaves" -> DoLeaves
    [] k = "init" -> DoInit
    [] k = "ph" -> DoPh
    [] k = "assignv" -> DoAssignVec
    [] k = "assignn" -> DoAssignNode
    [] k = "prep" -> DoPrep
    [] k = "run" -> DoRun
    [] k = "notify" -> DoNotify
    [] k = "delete" -> DoDelete
    [] k = "drop" -> DoDrop
    [] k = "clone" -> DoClone
    [] k = "handle" -> DoHandle
    [] k = "freeze" -> DoFreeze
    [] k = "thaw" -> DoThaw
    [] k = "derive" -> DoDerive
    [] k = "gradeval" -> DoGradEval

Next == step < MaxSteps /\ \E k \in Pick(1..Len(Kinds)) : Act(IF step < FirstLeaves THEN "leaf" ELSE Kinds[k])
Spec == Init /\ [][Next]_vars

(* at the end of a behaviour every live node is observed once more *)
Final == LET os == {i \in Usable : TRUE} IN [i \in os |-> EvalEvent(i)]
Export == step = MaxSteps => Emit("B", [ev |-> hist, fin |-> {EvalEvent(i) : i \in Usable}, grads |-> {GradEvent(g) : g \in Gradients}])

(*------------------------- design-level properties -----------------------*)
TypeOK ==
  /\ Len(cur) = N /\ Len(snap) = N
  /\ \A i \in 1..N : nodes[i].al /\ IsOp(i) => \A k \in 1..Len(nodes[i].a) : nodes[i].a[k] < i /\ nodes[nodes[i].a[k]].al
(* C01: the tracked value is the defining expression over the leaves *)
RECURSIVE Den(_)
Den(i) == IF nodes[i].a = <<>> THEN cur[i]
          ELSE IF \E k \in 1..Len(nodes[i].a) : Den(nodes[i].a[k]).s = <<>> THEN NoTensor
          ELSE Sem(nodes[i].op, nodes[i].p, nodes[i].q, [k \in 1..Len(nodes[i].a) |-> Den(nodes[i].a[k])])
Consistent == \A i \in 1..N : nodes[i].al /\ IsOp(i) => cur[i] = Den(i)
ShapesRight == \A i \in 1..N : nodes[i].al /\ Good(i) => cur[i].s = nodes[i].sh
(* C02: what a frozen node evaluates to does not change until it is thawed *)
FrozenStay == [][\A i \in 1..N : (IsOp(i) /\ nodes[i].g \in frozen /\ nodes'[i].g \in frozen')
                   => snap'[i] = snap[i]]_vars
(* ... and after thawing it is again the current value *)
ThawCurrent == \A i \in 1..N : Alive(i) /\ IsOp(i) /\ nodes[i].g \notin frozen => Expected(i) = Den(i)
(* C04: two nodes built from the same operation and operands are one node *)
NoTwins == [][\A i \in 1..Len(nodes') : \A j \in 1..i - 1 :
                i > N /\ Len(nodes') > N /\ hist'[Len(hist')].a = "op" /\ nodes'[i].c = "op" /\ nodes'[j].al /\ nodes'[j].c = "op"
                => ~(nodes'[i].op \notin Unnamed /\ nodes'[i].op = nodes'[j].op /\ nodes'[i].a = nodes'[j].a /\ nodes'[i].p = nodes'[j].p /\ nodes'[i].q = nodes'[j].q)]_vars
(* C06: nothing outlives what it is computed from, and deletion takes only that *)
Owned == \A i \in 1..N : Alive(i) => \A k \in 1..Len(nodes[i].a) : Alive(nodes[i].a[k])
OnlyDependents == [][\A i \in 1..N : (Alive(i) /\ ~nodes'[i].al /\ ~IsGrad(i) /\ ~IsConst(i)) =>
                       \E j \in 1..N : Descends(nodes, i, j) /\ ~nodes'[j].al /\ hist'[Len(hist')].h = j]_vars
(* C05: the simplified node denotes what the plain expression denotes *)
==============================================================================
