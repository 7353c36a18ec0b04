------------------------------ MODULE ShapeWide ------------------------------
(***************************************************************************)
(* Shapes far larger than any tensor that could be allocated: extents are   *)
(* powers of two, given by their exponents (-1: unknown), and all results   *)
(* are given by exponents as well, since they exceed TLC's integers.        *)
(***************************************************************************)
EXTENDS Shapes, Enc
CONSTANTS MaxRank, Exponents, MaxBits
VARIABLES e, t
RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE Sum(q, k - 1) + (IF q[k] > 0 THEN q[k] ELSE 0)
Bits(q) == Sum(q, Len(q))
AllOf(r) == {q \in UNION {[1..k -> Exponents \cup {-1}] : k \in 1..r} : Bits(q) <= MaxBits}
Init == e \in AllOf(MaxRank) /\ t \in AllOf(2)
Next == FALSE /\ UNCHANGED <<e, t>>
Spec == Init /\ [][Next]_<<e, t>>

Whole(q) == \A i \in 1..Len(q) : q[i] >= 0
\* the parts of positions: 0 none, 1 one, 2 the middle, 3 the last
Range(f) == {f[i] : i \in DOMAIN f}
RECURSIVE DigitSeq(_)
DigitSeq(q) == IF q = <<>> THEN << <<>> >> ELSE
  LET r == DigitSeq(Tail(q)) n == IF Head(q) = 0 THEN 1 ELSE 4 IN [i \in 1..Len(r) * n |-> <<(i - 1) % n>> \o r[((i - 1) \div n) + 1]]
\* each part weighs two to the sum of the exponents before it
Weights(q) == [i \in 1..Len(q) |-> Sum(q, i - 1)]
\* small stand-ins with the same equalities
Code(q) == [i \in 1..Len(q) |-> q[i] + 1]
C3(x, y) == LET c == Compat(x, y) IN IF c = "yes" THEN 1 ELSE IF c = "no" THEN 0 ELSE 2
Ev == [a |-> "wide", e |-> e, t |-> t, full |-> Whole(e), bits |-> Bits(e), compat |-> C3(Code(e), Code(t)),
       weights |-> Weights(e), digits |-> IF Whole(e) /\ t = <<-1>> THEN DigitSeq(e) ELSE <<>>]
Export == Emit("B", [ev |-> <<Ev>>])

(*------------- agrees with the definitions for small extents ---------------*)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Sizes(q) == [i \in 1..Len(q) |-> IF q[i] < 0 THEN 0 ELSE Pow2(q[i])]
Part(x, p) == CASE p = 0 -> 0 [] p = 1 -> 1 [] p = 2 -> Pow2(x) \div 2 [] p = 3 -> Pow2(x) - 1
RECURSIVE Flat2(_, _, _)
Flat2(q, d, k) == IF k = 0 THEN 0 ELSE Flat2(q, d, k - 1) + Part(q[k], d[k]) * Pow2(Weights(q)[k])
Agrees == Bits(e) <= 12 /\ Bits(t) <= 12 =>
  /\ SKnown(Sizes(e)) = Pow2(Bits(e)) /\ (Whole(e) => SElems(Sizes(e)) = Pow2(Bits(e)))
  /\ Compat(Sizes(e), Sizes(t)) = Compat(Code(e), Code(t))
  /\ (Whole(e) => \A d \in Range(DigitSeq(e)) : FlatOf(Sizes(e), [k \in 1..Len(e) |-> Part(e[k], d[k])]) = Flat2(e, d, Len(e)))
==============================================================================
