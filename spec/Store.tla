-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Tensor storage: which shape a tensor may take, which it has, and what it  *)
(* contains, through construction, reshaping, allocation, copying, moving,   *)
(* filling and transfer through its serialised form.                         *)
(* A tensor is [lv, ok, sh, d, al]: alive?, allowed shape, allocated shape   *)
(* (<<>>: not allocated), data (U: undetermined contents) and the allocator  *)
(* its memory comes from and goes back to.                                   *)
(***************************************************************************)
EXTENDS Shapes, Enc
CONSTANTS MaxSteps, Slots, ShapePool, Kinds, Allocs
VARIABLES ts, reg,  \* kind of allocator registered under a number, "none"; 0 always is
          hist, step
vars == <<ts, reg, hist, step>>
view == <<ts, reg, step>>

U == -1
Blank == [lv |-> FALSE, ok |-> <<>>, sh |-> <<>>, d |-> <<>>, al |-> 0]
Ten(al, ok, sh, d) == [lv |-> TRUE, ok |-> ok, sh |-> sh, d |-> d, al |-> al]
Owned(al) == reg[al] # "none"
Undet(s) == [i \in 1..SElems(s) |-> U]
Fresh(al, s) == IF Full(s) THEN Ten(al, s, s, Undet(s)) ELSE Ten(al, s, <<>>, <<>>)
Alloced(x) == x.sh # <<>>
Shape(x) == IF Alloced(x) THEN x.sh ELSE x.ok
Live == {i \in Slots : ts[i].lv}
FitInt(d, from, to) ==  \* contents moved into another shape, zero where there was nothing
  LET m == IMin(Len(from), Len(to)) IN
  TLCEval([x \in 1..SElems(to) |->
    LET c == CoordOf(to, x - 1) IN
    IF (\A j \in 1..m : c[j] < from[j]) /\ (\A j \in (m + 1)..Len(c) : c[j] = 0)
    THEN d[FlatOf(from, c) + 1] ELSE 0])
Data(k) == {TLCEval([i \in 1..k |-> IF Mode = "one" THEN RandomElement(1..99) ELSE i])}

Tick == step' = step + 1
Log(e) == hist' = Append(hist, e)
Skip == UNCHANGED <<ts, reg, hist>> /\ Tick
Obs(x) == [lv |-> x.lv, al |-> Alloced(x), s |-> Shape(x), d |-> x.d, by |-> x.al]
(* every event records all tensors as they are afterwards *)
Do(e, t2) == ts' = t2 /\ UNCHANGED reg /\ Log(e @@ [st |-> [i \in Slots |-> Obs(t2[i])]]) /\ Tick
Set(i, x) == [ts EXCEPT ![i] = x]

New == \E i \in Pick(Slots) : \E k \in Pick({"none", "scalar", "shape", "shape", "shape"}) : \E s \in Pick(ShapePool) : \E v \in Data(1) : \E al \in Pick(Allocs) :
  LET r == k = "none" \/ Owned(al) IN
  Do([a |-> "new", i |-> i, k |-> k, s |-> s, v |-> v[1], al |-> al, r |-> r],
     IF ~r THEN ts ELSE
     Set(i, IF k = "none" THEN Ten(0, <<>>, <<>>, <<>>) ELSE IF k = "scalar" THEN Ten(al, <<1>>, <<1>>, v) ELSE Fresh(al, s)))
(* a number is given once *)
Register == \E al \in Pick(Allocs) : \E k \in Pick({"A", "B"}) :
  LET r == ~Owned(al) IN
  /\ reg' = IF r THEN [reg EXCEPT ![al] = k] ELSE reg
  /\ UNCHANGED ts
  /\ Log([a |-> "reg", i |-> al, k |-> k, r |-> r, is |-> [n \in 1..Cardinality(Allocs \ {0}) |-> reg'[n]], st |-> [i \in Slots |-> Obs(ts[i])]])
  /\ Tick
FillT == IF {i \in Live : Alloced(ts[i])} = {} THEN Skip ELSE
  \E i \in Pick({i \in Live : Alloced(ts[i])}) : \E extra \in Pick({0, 0, 2}) : \E d \in Data(Len(ts[i].d) + extra) :
    Do([a |-> "fill", i |-> i, v |-> d], Set(i, [ts[i] EXCEPT !.d = SubSeq(d, 1, Len(@))]))
Const == IF {i \in Live : Alloced(ts[i])} = {} THEN Skip ELSE
  \E i \in Pick({i \in Live : Alloced(ts[i])}) : \E v \in Data(1) :
    Do([a |-> "const", i |-> i, v |-> v[1]], Set(i, [ts[i] EXCEPT !.d = [k \in 1..Len(@) |-> v[1]]]))
Plus == LET S == {ij \in Live \X Live : Alloced(ts[ij[1]]) /\ Alloced(ts[ij[2]]) /\ Len(ts[ij[1]].d) = Len(ts[ij[2]].d)} IN
  IF S = {} THEN Skip ELSE
  \E ij \in Pick(S) : \E m \in Pick({"set", "add"}) :
    LET x == ts[ij[1]].d  y == ts[ij[2]].d IN
    IF m = "add" /\ \E k \in 1..Len(x) : x[k] > 1000 THEN Skip ELSE
    Do([a |-> "assign", i |-> ij[1], j |-> ij[2], m |-> m],
       Set(ij[1], [ts[ij[1]] EXCEPT !.d = [k \in 1..Len(x) |-> IF m = "set" THEN y[k] ELSE IF x[k] = U \/ y[k] = U THEN U ELSE x[k] + y[k]]]))

(* a new allowed shape; what is allocated follows it *)
Reshaped(x, s) ==
  LET ok2 == IF Compat(x.ok, s) = "no" \/ ~Alloced(x) THEN s ELSE x.ok IN
  IF ~Alloced(x) \/ Compat(s, x.sh) = "yes" THEN [x EXCEPT !.ok = ok2]
  ELSE LET to == IF Full(s) THEN s ELSE WithRank(Merge(s, WithRank(x.sh, Len(s))), Len(ok2)) IN
       IF Full(to) /\ Compat(to, ok2) = "yes" /\ Compat(to, x.sh) = "no" THEN Ten(x.al, ok2, to, FitInt(x.d, x.sh, to)) ELSE [x EXCEPT !.ok = ok2]
Decided(x, s) == Compat(x.ok, s) # "any" /\ (Alloced(x) =>
   /\ Compat(s, x.sh) # "any"
   /\ LET ok2 == IF Compat(x.ok, s) = "no" THEN s ELSE x.ok
          to == IF Full(s) THEN s ELSE WithRank(Merge(s, WithRank(x.sh, Len(s))), Len(ok2))
      IN Compat(to, ok2) # "any" /\ Compat(to, x.sh) # "any" /\ to # <<>>)
SetShape == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Live) : \E s \in Pick(ShapePool \ {<<>>}) :
    IF ~Decided(ts[i], s) THEN Skip ELSE Do([a |-> "setshape", i |-> i, s |-> s], Set(i, Reshaped(ts[i], s)))

Alloc == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Live) :
    LET x == ts[i]  r == ~Alloced(x) /\ Full(x.ok) IN
    Do([a |-> "alloc", i |-> i, r |-> r], Set(i, IF r THEN Ten(x.al, x.ok, x.ok, Undet(x.ok)) ELSE x))
AllocS == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Live) : \E s \in Pick(ShapePool) :
    LET x == ts[i]
        stay == Alloced(x) /\ Compat(s, x.sh) = "yes"
        r == ~stay /\ Full(s) /\ Compat(s, x.ok) = "yes" IN
    IF Compat(s, x.ok) = "any" \/ (Alloced(x) /\ Compat(s, x.sh) = "any") THEN Skip ELSE
    Do([a |-> "allocs", i |-> i, s |-> s, r |-> r],
       Set(i, IF ~r THEN x ELSE IF Alloced(x) THEN Ten(x.al, x.ok, s, FitInt(x.d, x.sh, s)) ELSE Ten(x.al, x.ok, s, Undet(s))))
Dealloc == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Live) : Do([a |-> "dealloc", i |-> i, r |-> Alloced(ts[i])], Set(i, Ten(ts[i].al, ts[i].ok, <<>>, <<>>)))
CopyFrom == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Live) : \E j \in Pick(Live) : \E s \in Pick(ShapePool) :
    LET x == ts[i]  y == ts[j]  r == Alloced(y) /\ Full(s) IN
    IF Compat(x.ok, s) = "any" THEN Skip ELSE
    Do([a |-> "copyfrom", i |-> i, j |-> j, s |-> s, r |-> r],
       Set(i, IF ~r THEN x ELSE Ten(x.al, IF Compat(x.ok, s) = "no" THEN s ELSE x.ok, s, FitInt(y.d, y.sh, s))))

(*--- whole tensors ---*)
Copy == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Slots) : \E j \in Pick(Live) : \E m \in Pick({"copy", "clone", "shape", "cloneshape", "assign", "self"}) :
    IF i = j /\ m # "self" THEN Skip ELSE
    IF m \in {"assign", "self"} /\ ~ts[i].lv THEN Skip ELSE
    Do([a |-> "copy", i |-> i, j |-> j, m |-> m],
       IF m = "self" THEN ts
       ELSE Set(i, IF m \in {"shape", "cloneshape"} THEN [ts[j] EXCEPT !.d = [k \in 1..Len(@) |-> U]] ELSE ts[j]))
(* a moved-from tensor is as good as a newly made one without a shape *)
Move == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Slots) : \E j \in Pick(Live) : \E m \in Pick({"move", "movefn", "assign"}) :
    IF i = j \/ (m = "assign" /\ ~ts[i].lv) THEN Skip ELSE
    Do([a |-> "move", i |-> i, j |-> j, m |-> m], [ts EXCEPT ![i] = ts[j], ![j] = Ten(ts[j].al, <<>>, <<>>, <<>>)])
Drop == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Live) : Do([a |-> "drop", i |-> i], Set(i, Blank))

(*--- serialised form ---*)
(* damage: what is done to the message before it is read back; a message     *)
(* that does not describe a tensor is refused and changes nothing            *)
Proto == LET S == {j \in Live : Alloced(ts[j])} IN
  IF S = {} THEN Skip ELSE
  \E i \in Pick(Live) : \E j \in Pick(S) : \E dmg \in Pick({"no", "no", "no", "short", "long", "empty", "alloc", "unknown"}) :
  \E al \in Pick(IF Allocs = {0} THEN {-1} ELSE Allocs \cup {-1}) :   \* -1: into memory of the same allocator
    LET y == ts[j]
        no == al >= 0 /\ ~Owned(al)
        r == dmg = "no" /\ ~no IN
    Do([a |-> "proto", i |-> i, j |-> j, dmg |-> dmg, al |-> al, no |-> no, r |-> r],
       Set(i, IF r THEN [y EXCEPT !.al = IF al < 0 THEN ts[i].al ELSE al] ELSE ts[i]))

(*--- questions ---*)
C3(x, y) == LET c == Compat(x, y) IN IF c = "yes" THEN 1 ELSE IF c = "no" THEN 0 ELSE 2
SameSize(x, y) == IF Alloced(x) /\ Alloced(y) THEN C3(TrimAll(x.sh), TrimAll(y.sh)) ELSE C3(x.ok, y.ok)
Ask == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Live) : \E j \in Pick(Live) : \E n \in Pick({1, 2, 3, 4, 5, 6, 8, 9, 12, 24}) :
  \E at \in Pick(UNION {[1..k -> 0..3] : k \in 0..3}) :
    LET x == ts[i]  y == ts[j]
        inside == Alloced(x) /\ Len(at) <= Len(x.sh) /\ \A k \in 1..Len(at) : at[k] < x.sh[k]
        f == IF Alloced(x) THEN FlatOf(x.sh, at) ELSE 0 IN
    Do([a |-> "ask", i |-> i, j |-> j, n |-> n, same |-> SameSize(x, y), compat |-> C3(Shape(x), Shape(y)),
        fits |-> FitsData(Shape(x), n), loose |-> FitsLoosely(Shape(x), n),
        guess |-> Guess(x.ok, n), lguess |-> LooseGuess(x.ok, n), at |-> at,
        got |-> IF inside THEN x.d[f + 1] ELSE IF ~Alloced(x) \/ f >= SElems(x.sh) THEN -2 ELSE -3], ts)

Init == ts = [i \in Slots |-> Blank] /\ reg = [n \in Allocs |-> IF n = 0 THEN "D" ELSE "none"] /\ hist = <<>> /\ step = 0
Act(k) ==
  CASE k = "new" -> New [] k = "fill" -> FillT [] k = "const" -> Const [] k = "plus" -> Plus [] k = "setshape" -> SetShape
    [] k = "alloc" -> Alloc [] k = "allocs" -> AllocS [] k = "dealloc" -> Dealloc [] k = "copyfrom" -> CopyFrom
    [] k = "copy" -> Copy [] k = "move" -> Move [] k = "drop" -> Drop [] k = "proto" -> Proto [] k = "reg" -> Register [] k = "ask" -> Ask
Next == step < MaxSteps /\ \E k \in Pick(1..Len(Kinds)) : Act(IF step = 0 THEN "new" ELSE Kinds[k])
Spec == Init /\ [][Next]_vars
Export == step = MaxSteps => Emit("B", [ev |-> hist])

(*----------------------------- what must hold ------------------------------*)
TypeOK == \A i \in Slots : LET x == ts[i] IN
  /\ Alloced(x) => x.lv /\ Full(x.sh)
  /\ Len(x.d) = SElems(x.sh)
(* an allocated shape never contradicts the allowed one *)
WithinAllowed == \A i \in Slots : Alloced(ts[i]) => Compat(ts[i].sh, ts[i].ok) # "no"
(* an operation on one tensor leaves all others alone *)
Isolation == [][\A i \in Slots : ts'[i] # ts[i] =>
                  LET e == hist'[Len(hist')] IN e.i = i \/ (e.a = "move" /\ e.j = i)]_vars
(* memory is of a registered allocator; a tensor goes on using its own unless it takes over another's *)
Registered == \A i \in Slots : ts[i].lv => Owned(ts[i].al)
KeepsAllocator == [][\A i \in Slots : ts[i].lv /\ ts'[i].lv /\ ts'[i].al # ts[i].al =>
                       LET e == hist'[Len(hist')] IN e.i = i /\ e.a \in {"new", "copy", "move", "proto"}]_vars
(* growing and shrinking never invents contents *)
NoInvention == [][\A i \in Slots : LET e == hist'[Len(hist')] IN
   hist' # hist /\ e.a \in {"setshape", "allocs"} /\ Alloced(ts[i]) /\ Alloced(ts'[i])
   => \A k \in 1..Len(ts'[i].d) : ts'[i].d[k] = 0 \/ \E m \in 1..Len(ts[i].d) : ts[i].d[m] = ts'[i].d[k]]_vars
==============================================================================
