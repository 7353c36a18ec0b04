------------------------------- MODULE ShapeAlg -------------------------------
(* Every pair of shapes up to a bound: what each function of shapes gives.   *)
EXTENDS Shapes, Enc
CONSTANTS MaxRank, Extents, PairRank
VARIABLES s, t

AllOf(r) == UNION {[1..k -> Extents] : k \in 0..r}
Init == s \in AllOf(MaxRank) /\ t \in AllOf(PairRank)
Next == FALSE /\ UNCHANGED <<s, t>>
Spec == Init /\ [][Next]_<<s, t>>

C3(x, y) == LET c == Compat(x, y) IN IF c = "yes" THEN 1 ELSE IF c = "no" THEN 0 ELSE 2
Coords(x) == [i \in 1..SElems(x) |-> CoordOf(x, i - 1)]
Ev == [a |-> "shape", s |-> s, t |-> t,
       n |-> SElems(s), known |-> SKnown(s), full |-> Full(s), part |-> PartlyKnown(s),
       compat |-> C3(s, t), mergeok |-> CanMerge(s, t), merge |-> IF CanMerge(s, t) THEN Merge(s, t) ELSE <<>>,
       trim |-> TrimAll(s), cat |-> s \o t,
       wr |-> [r \in 1..6 |-> WithRank(s, r - 1)], lo |-> [r \in 1..6 |-> AtLeast(s, r - 1)], hi |-> [r \in 1..6 |-> AtMost(s, r - 1)],
       coords |-> IF Full(s) THEN Coords(s) ELSE <<>>,
       \* positions of coordinates of t within s: missing ones are 0, surplus ones ignored
       cross |-> IF Full(s) /\ Full(t) THEN [i \in 1..SElems(t) |-> FlatOf(s, CoordOf(t, i - 1))] ELSE <<>>]
Export == Emit("B", [ev |-> <<Ev>>])

(*--------------------------- algebraic laws -------------------------------*)
Symmetric == Compat(s, t) = Compat(t, s)
Reflexive == Compat(s, s) = "yes"
RoundTrip == Full(s) => \A i \in 0..SElems(s) - 1 : FlatOf(s, CoordOf(s, i)) = i
Inside == Full(s) => \A i \in 0..SElems(s) - 1 : \A k \in 1..Len(s) : CoordOf(s, i)[k] < s[k]
Idempotent == TrimAll(TrimAll(s)) = TrimAll(s)
PaddingKeeps == s # <<>> /\ Known(s) => Compat(s, s \o <<1>>) = "yes" /\ Compat(s, <<1>> \o s) = "yes" /\ SElems(s \o <<1>>) = SElems(s)
MergeMore == CanMerge(s, t) => SKnown(Merge(s, t)) >= SKnown(s) /\ (Full(s) => Merge(s, t) = s)
MergeCompat == CanMerge(s, t) /\ Compat(s, t) = "yes" => Compat(Merge(s, t), s) = "yes" /\ Compat(Merge(s, t), t) = "yes"
CatElems == s # <<>> /\ t # <<>> => SElems(s \o t) = SElems(s) * SElems(t)
FullElems == Full(s) <=> SElems(s) > 0
SameCount == Full(s) /\ Full(t) /\ Compat(s, t) = "yes" => SElems(s) = SElems(t)
==============================================================================
