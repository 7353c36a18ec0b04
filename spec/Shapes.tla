-------------------------------- MODULE Shapes --------------------------------
(***************************************************************************)
(* Shapes: sequences of extents, 0 standing for an unknown extent and the   *)
(* empty sequence for a shape nothing is known about.                       *)
(* Compat is three-valued: "yes", "no", or "any" where the documentation    *)
(* leaves the outcome open (padding an unknown leading or trailing extent). *)
(***************************************************************************)
EXTENDS Tensors

Known(s) == \A i \in 1..Len(s) : s[i] > 0
Full(s) == s # <<>> /\ Known(s)
PartlyKnown(s) == s # <<>>
SElems(s) == IF s = <<>> THEN 0 ELSE ProdTo(s, Len(s))
SKnown(s) == IF s = <<>> THEN 0 ELSE ProdTo([i \in 1..Len(s) |-> IF s[i] = 0 THEN 1 ELSE s[i]], Len(s))

Pairwise(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i] \/ s[i] = 0 \/ t[i] = 0

(* s without i leading and j trailing extents *)
Cut(s, i, j) == SubSeq(s, i + 1, Len(s) - j)
(* the ways of dropping leading and trailing extents that all lie in Dr,     *)
(* keeping at least one                                                      *)
Cuts(s, Dr) == {Cut(s, i, j) : i \in {i \in 0..Len(s) - 1 : \A k \in 1..i : s[k] \in Dr},
                               j \in {j \in 0..Len(s) - 1 : \A k \in 1..j : s[Len(s) + 1 - k] \in Dr}} \ {<<>>}
CutsOK(s, Dr) == {Cut(s, ij[1], ij[2]) : ij \in {ij \in (0..Len(s)) \X (0..Len(s)) :
                    ij[1] + ij[2] < Len(s) /\ (\A k \in 1..ij[1] : s[k] \in Dr)
                                           /\ (\A k \in 1..ij[2] : s[Len(s) + 1 - k] \in Dr)}}
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 1 /\ s[1] = 1 THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 1 /\ s[Len(s)] = 1 THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Compat(s, t) ==
  IF s = <<>> \/ t = <<>> THEN "yes"
  ELSE IF Len(s) = Len(t) THEN (IF Pairwise(s, t) THEN "yes" ELSE "no")
  ELSE IF Known(s) /\ Known(t) THEN (IF TrimR(TrimL(s)) = TrimR(TrimL(t)) THEN "yes" ELSE "no")
  ELSE IF \E x \in CutsOK(s, {0, 1}) : \E y \in CutsOK(t, {0, 1}) : Pairwise(x, y) THEN "any" ELSE "no"

Ones(n) == [i \in 1..n |-> 1]
WithRank(s, r) == IF r <= Len(s) THEN SubSeq(s, 1, r) ELSE s \o Ones(r - Len(s))
AtLeast(s, r) == IF r > Len(s) THEN WithRank(s, r) ELSE s
AtMost(s, r) == IF r < Len(s) THEN WithRank(s, r) ELSE s
CanMerge(s, t) == s = <<>> \/ t = <<>> \/ Len(s) = Len(t)
(* the more defined of both, this one's extents first *)
Merge(s, t) == IF s = <<>> THEN t ELSE IF t = <<>> THEN s
               ELSE [i \in 1..Len(s) |-> IF s[i] # 0 THEN s[i] ELSE t[i]]
(* without leading and trailing extents of one *)
TrimAll(s) == IF s = <<>> THEN <<>> ELSE LET x == TrimR(TrimL(s)) IN IF x = <<1>> THEN <<>> ELSE x

(*------------- shapes suggested for n elements of data --------------------*)
FirstUnknown(s) == CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..i - 1 : s[j] # 0
Suggest(s, v) == [i \in 1..Len(s) |-> IF s[i] # 0 THEN s[i] ELSE IF i = FirstUnknown(s) THEN v ELSE 1]
Guess(s, n) ==   \* <<>>: none
  IF s = <<>> THEN <<n>>
  ELSE IF Known(s) THEN (IF SElems(s) = n THEN s ELSE <<>>)
  ELSE IF n % SKnown(s) = 0 THEN Suggest(s, n \div SKnown(s)) ELSE <<>>
LooseGuess(s, n) ==
  IF s = <<>> THEN <<n>>
  ELSE IF Known(s) THEN (IF SElems(s) >= n THEN s ELSE <<>>)
  ELSE Suggest(s, (n + SKnown(s) - 1) \div SKnown(s))
FitsData(s, n) == IF s = <<>> THEN TRUE ELSE IF Known(s) THEN n = SElems(s) ELSE n % SKnown(s) = 0
FitsLoosely(s, n) == IF s # <<>> /\ Known(s) THEN n <= SElems(s) ELSE TRUE
==============================================================================
