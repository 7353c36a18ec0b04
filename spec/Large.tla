--------------------------------- MODULE Large ---------------------------------
(***************************************************************************)
(* Products of matrices too large to enumerate: contents are given by a      *)
(* formula over row, column and batch, the product is what multiplying rows  *)
(* by columns gives, whatever algorithm a size selects.  Factors may be given *)
(* transposed and are assigned new contents while the product is in use.      *)
(***************************************************************************)
EXTENDS Enc
CONSTANTS MaxSteps, Dims, Limit, Batches, Samples
VARIABLES sh, fa, fb, hist, step
vars == <<sh, fa, fb, hist, step>>

(* element at row r, column c of matrix m of the batch                       *)
El(f, r, c, m) == ((f[1] + f[2] * r + f[3] * c + f[4] * r * c + 5 * m) % f[5]) - f[6]
Dots(f, g, r, c, m, n) == LET RECURSIVE D(_, _) D(k, a) == IF k = n THEN a ELSE D(k + 1, a + El(f, r, k, m) * El(g, k, c, m)) IN D(0, 0)

Formulas == {<<a, b, c, d, q, o>> : a \in {0, 3}, b \in {1, 2, 4}, c \in {1, 3, 5}, d \in {0, 1}, q \in {3, 7, 11}, o \in {0, 1, 4}}
(* positions whose expected value is spelled out: corners and a few others    *)
Spots(s) == {<<r, c, m>> : r \in {0, s.y - 1, s.y \div 2}, c \in {0, s.x - 1, s.x \div 2}, m \in {s.b - 1}}
            \cup {<<RandomElement(0..(s.y - 1)), RandomElement(0..(s.x - 1)), RandomElement(0..(s.b - 1))>> : k \in 1..Samples}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Value(s, f, g) == LET ps == AsSeq(Spots(s)) IN [k \in 1..Len(ps) |-> [r |-> ps[k][1], c |-> ps[k][2], m |-> ps[k][3], v |-> Dots(f, g, ps[k][1], ps[k][2], ps[k][3], s.z)]]

None == [y |-> 0, z |-> 0, x |-> 0, b |-> 0, ta |-> FALSE, tb |-> FALSE]
Init == sh = None /\ fa = <<>> /\ fb = <<>> /\ hist = <<>> /\ step = 0
(* factors of a reasonable size altogether                                    *)
Fits(s) == s.y * s.z * s.x * s.b <= Limit
Choose == \E y \in Pick(Dims) : \E z \in Pick(Dims) : \E x \in Pick(Dims) : \E b \in Pick(Batches) : \E ta \in Pick({TRUE, FALSE}) : \E tb \in Pick({TRUE, FALSE}) :
          \E f \in Pick(Formulas) : \E g \in Pick(Formulas) :
    LET s0 == [y |-> y, z |-> z, x |-> x, b |-> b, ta |-> ta, tb |-> tb]
        s == IF Fits(s0) THEN s0 ELSE IF Fits([s0 EXCEPT !.b = 1]) THEN [s0 EXCEPT !.b = 1] ELSE [s0 EXCEPT !.b = 1, !.y = 3] IN
    sh' = s /\ fa' = f /\ fb' = g /\ hist' = <<[fa |-> f, fb |-> g, v |-> Value(s, f, g)]>>
Assign == \E w \in Pick({"a", "b"}) : \E f \in Pick(Formulas) :
    /\ UNCHANGED sh
    /\ fa' = IF w = "a" THEN f ELSE fa
    /\ fb' = IF w = "b" THEN f ELSE fb
    /\ hist' = Append(hist, [fa |-> fa', fb |-> fb', v |-> Value(sh, fa', fb')])
Next == step < MaxSteps /\ step' = step + 1 /\ IF step = 0 THEN Choose ELSE Assign
Spec == Init /\ [][Next]_vars
Export == step = MaxSteps => Emit("B", [sh |-> sh, ev |-> hist])

(* small instances agree with the meaning of the operation                   *)
Mat(f, r, c, b, t) == IF t THEN Tens(<<r, c, b>>, LAMBDA i : LET p == CoordOf(<<r, c, b>>, i) IN I(El(f, p[1], p[2], p[3])))
                      ELSE Tens(<<c, r, b>>, LAMBDA i : LET p == CoordOf(<<c, r, b>>, i) IN I(El(f, p[2], p[1], p[3])))
Agrees == step > 0 /\ sh.y * sh.z * sh.x <= 64 => LET
    A == Mat(fa, sh.y, sh.z, sh.b, sh.ta)  B == Mat(fb, sh.z, sh.x, sh.b, sh.tb)
    C == Matmul(IF sh.ta THEN Transpose(A, 0, 1) ELSE A, IF sh.tb THEN Transpose(B, 0, 1) ELSE B) IN
    \A r \in 0..(sh.y - 1), c \in 0..(sh.x - 1), m \in 0..(sh.b - 1) : At(C, <<c, r, m>>) = I(Dots(fa, fb, r, c, m, sh.z))
==============================================================================
