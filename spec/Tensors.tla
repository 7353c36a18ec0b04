------------------------------- MODULE Tensors -------------------------------
(***************************************************************************)
(* Tensors and the meaning of every graph operation on them.               *)
(* A tensor is [s |-> shape, d |-> data]; index 0 of the shape is the      *)
(* fastest varying one: the element at coordinate c has flat position      *)
(*    SUM_i c[i] * PROD_(j<i) s[j].                                        *)
(***************************************************************************)
EXTENDS Scalars, FiniteSets, TLC

RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
NElems(s) == IF Len(s) = 0 THEN 0 ELSE ProdTo(s, Len(s))

(* coordinate (sequence of 0-based positions) <-> flat position (0-based) *)
CoordOf(s, idx) == TLCEval([i \in 1..Len(s) |-> (idx \div ProdTo(s, i - 1)) % s[i]])
RECURSIVE FlatTo(_, _, _)
FlatTo(s, c, k) == IF k = 0 THEN 0 ELSE c[k] * ProdTo(s, k - 1) + FlatTo(s, c, k - 1)
(* coordinates may be longer than the shape (extra positions 0) or shorter *)
FlatOf(s, c) == FlatTo(s, c, IF Len(s) < Len(c) THEN Len(s) ELSE Len(c))

IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b

Tens(s, F(_)) == [s |-> s, d |-> TLCEval([i \in 1..NElems(s) |-> F(i - 1)])]
At(t, c) == t.d[FlatOf(t.s, c) + 1]
Scalar(x) == [s |-> <<1>>, d |-> <<x>>]
Fill(s, x) == [s |-> s, d |-> [i \in 1..NElems(s) |-> x]]
IsScalar(t) == NElems(t.s) = 1
Elem(t, i) == IF Len(t.d) = 1 THEN t.d[1] ELSE t.d[i]

NoTensor == [s |-> <<>>, d |-> <<>>]
HasX(t) == \E i \in 1..Len(t.d) : IsX(t.d[i])

(*------------------------- elementwise operations -----------------------*)
(* one-element operands broadcast; all other operands share one shape *)
Elem1Shape(s) == IF NElems(s) = 1 THEN <<1>> ELSE s
Elem2OK(s1, s2) == NElems(s1) = 1 \/ NElems(s2) = 1 \/ s1 = s2
Elem2Shape(s1, s2) == IF NElems(s1) # 1 THEN s1 ELSE IF NElems(s2) # 1 THEN s2 ELSE <<1>>

Map1(F(_), t) == LET s == Elem1Shape(t.s) IN Tens(s, LAMBDA i : F(t.d[i + 1]))
Map2(F(_, _), t, u) == LET s == Elem2Shape(t.s, u.s) IN Tens(s, LAMBDA i : F(Elem(t, i + 1), Elem(u, i + 1)))

(*------------------------------- axial ----------------------------------*)
(* one operand lacks dimension "axis" (0-based) of the other: it is        *)
(* repeated along that axis.  A dropped first or last dimension disappears *)
(* from the shape, a dropped middle one has extent 1.                      *)
DropShape(s, axis) ==
  IF axis = 0 THEN SubSeq(s, 2, Len(s))
  ELSE IF axis = Len(s) - 1 THEN SubSeq(s, 1, Len(s) - 1)
  ELSE [s EXCEPT ![axis + 1] = 1]
DropCoord(c, axis) ==
  IF axis = 0 THEN SubSeq(c, 2, Len(c))
  ELSE [c EXCEPT ![axis + 1] = 0]
AxialOK(thin, full, axis) ==
  /\ Len(full) >= 2 /\ axis < Len(full) /\ NElems(full) > 1
  /\ NElems(thin) = 1 \/ thin = DropShape(full, axis)
AxialShape(thin, full) == IF NElems(thin) = 1 THEN full ELSE IF NElems(full) = 1 THEN thin ELSE full
Axial(F(_, _), thin, full, axis) ==  \* F(thin element, full element)
  Tens(full.s, LAMBDA i :
    F(IF NElems(thin.s) = 1 THEN thin.d[1] ELSE At(thin, DropCoord(CoordOf(full.s, i), axis)),
      full.d[i + 1]))

(*----------------------------- transforms -------------------------------*)
PadShape(s, n) == IF Len(s) >= n THEN s ELSE s \o [i \in 1..(n - Len(s)) |-> 1]
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
Transpose(t, i, j) ==   \* 0-based axes
  LET lo == IMin(i, j)  hi == IMax(i, j)
      s == PadShape(t.s, hi + 1)
      o == Swap(s, lo + 1, hi + 1)
  IN Tens(o, LAMBDA x : t.d[FlatOf(s, Swap(CoordOf(o, x), lo + 1, hi + 1)) + 1])

Fit(t, s) ==
  Tens(s, LAMBDA x :
    LET c == CoordOf(s, x)  m == IMin(Len(s), Len(t.s)) IN
    IF (\A j \in 1..m : c[j] < t.s[j]) /\ (\A j \in (m + 1)..Len(c) : c[j] = 0)
    THEN At(t, c) ELSE Zero)

Extend(t, index, mult) ==
  LET s == PadShape(t.s, index + 1)
      o == [s EXCEPT ![index + 1] = @ * mult]
  IN Tens(o, LAMBDA x : LET c == CoordOf(o, x) IN
          t.d[FlatOf(s, [c EXCEPT ![index + 1] = @ % s[index + 1]]) + 1])

RECURSIVE FoldTo(_, _, _)
FoldTo(F(_, _), q, k) == IF k = 1 THEN q[1] ELSE F(FoldTo(F, q, k - 1), q[k])
FoldL(F(_, _), q) == FoldTo(F, q, Len(q))

ReduceShape(s, dim) ==
  IF dim >= Len(s) THEN s
  ELSE IF Len(s) = 1 THEN <<1>>
  ELSE DropShape(s, dim)
(* slice of t along 0-based dimension dim through reduced coordinate c *)
Slice(t, dim, c) ==
  LET full == IF Len(t.s) = 1 THEN <<0>>
              ELSE IF dim = 0 THEN <<0>> \o c
              ELSE IF dim = Len(t.s) - 1 THEN Append(c, 0) ELSE c
  IN [j \in 1..t.s[dim + 1] |-> At(t, [full EXCEPT ![dim + 1] = j - 1])]
ReduceDim(G(_), t, dim) ==
  IF dim >= Len(t.s) THEN t
  ELSE LET o == ReduceShape(t.s, dim) IN Tens(o, LAMBDA x : G(Slice(t, dim, CoordOf(o, x))))
ReduceAll(G(_), t) == Scalar(G(t.d))

SumSeq(q) == FoldL(Add, q)
MaxSeq(q) == FoldL(Max2, q)
(* position of the first maximal element; only defined on rationals *)
RECURSIVE ArgMaxTo(_, _)
ArgMaxTo(q, k) == IF k = 1 THEN 1
                  ELSE LET b == ArgMaxTo(q, k - 1) IN IF Lt(q[b], q[k]) THEN k ELSE b
ArgMaxSeq(q) == IF \E i \in 1..Len(q) : ~IsR(q[i]) THEN X ELSE I(ArgMaxTo(q, Len(q)) - 1)
RECURSIVE ArgMinTo(_, _)
ArgMinTo(q, k) == IF k = 1 THEN 1
                  ELSE LET b == ArgMinTo(q, k - 1) IN IF Lt(q[k], q[b]) THEN k ELSE b
ArgMinSeq(q) == IF \E i \in 1..Len(q) : ~IsR(q[i]) THEN X ELSE I(ArgMinTo(q, Len(q)) - 1)

Flip(t, dims) ==
  Tens(t.s, LAMBDA x : LET c == CoordOf(t.s, x) IN
    At(t, [i \in 1..Len(c) |-> IF (i - 1) \in dims THEN t.s[i] - c[i] - 1 ELSE c[i]]))

(*------------------------------ matmul ----------------------------------*)
(* <z, y, batch...> x <x, z, batch...> -> <x, y, batch...>: index 0 is the *)
(* column; a missing second dimension counts as 1                          *)
Dim(s, i) == IF i <= Len(s) THEN s[i] ELSE 1
BatchOf(s) == IF Len(s) > 2 THEN SubSeq(s, 3, Len(s)) ELSE <<>>
MatmulOK(s1, s2) ==
  /\ Len(s1) >= 1 /\ Len(s2) >= 1
  /\ Dim(s1, 1) = Dim(s2, 2)
  /\ BatchOf(s1) = BatchOf(s2)
MatmulShape(s1, s2) == <<Dim(s2, 1), Dim(s1, 2)>> \o BatchOf(s1)
Matmul(t, u) ==
  LET o == MatmulShape(t.s, u.s)
      Z == Dim(t.s, 1)
      s1 == PadShape(t.s, 2)  s2 == PadShape(u.s, 2)
  IN Tens(o, LAMBDA i :
       LET c == CoordOf(o, i) IN
       FoldL(Add, [z \in 1..Z |->
          Mul(t.d[FlatOf(s1, [c EXCEPT ![1] = z - 1]) + 1],
              u.d[FlatOf(s2, [c EXCEPT ![2] = z - 1]) + 1])]))

(*-------------------- correlation along two dimensions -------------------*)
(* f[.., i, .., j, ..] = SUM_(m,n) a[.., i+m, .., j+n, ..] * filter(m, n)   *)
CrossOK(s, f, d1, d2) ==
  /\ d1 < Len(s) /\ d2 < Len(s) /\ d1 < Len(f) /\ d2 < Len(f)
  /\ f[d1 + 1] <= s[d1 + 1] /\ f[d2 + 1] <= s[d2 + 1]
CrossCorr(t, f, d1, d2) ==
  LET o == [t.s EXCEPT ![d1 + 1] = @ - f.s[d1 + 1] + 1, ![d2 + 1] = @ - f.s[d2 + 1] + 1]
      n1 == f.s[d1 + 1]  n2 == f.s[d2 + 1]
  IN Tens(o, LAMBDA x : LET c == CoordOf(o, x) IN
       FoldL(Add, [k \in 1..(n1 * n2) |->
         LET i == (k - 1) \div n2  j == (k - 1) % n2 IN
         Mul(At(t, [c EXCEPT ![d1 + 1] = @ + i, ![d2 + 1] = @ + j]),
             At(f, [m \in 1..Len(f.s) |-> IF m = d1 + 1 THEN i ELSE IF m = d2 + 1 THEN j ELSE 0]))]))

L2(t) == Fun1("sqrt", FoldL(Add, [i \in 1..Len(t.d) |-> Mul(t.d[i], t.d[i])]))
==============================================================================
