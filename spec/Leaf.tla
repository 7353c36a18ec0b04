--------------------------------- MODULE Leaf ---------------------------------
(***************************************************************************)
(* Leaves of a graph over their whole life: which shapes variables,          *)
(* placeholders and constants take, when they have contents and which, what  *)
(* copies, moves and assignments between leaves do, which requests are       *)
(* rejected, and what nodes computed from them see - including after a leaf  *)
(* was given a shape its dependents cannot take.                             *)
(*                                                                           *)
(* leaf:  k kind; ok allowed shape; sh allocated shape (<<>>: none); d data; *)
(*        rdy has contents; iv initialiser; b shape its dependents were      *)
(*        built with (<<>>: it has none)                                     *)
(* node:  x arguments (leaves); e how it is computed                         *)
(***************************************************************************)
EXTENDS Shapes, Enc
CONSTANTS MaxSteps, NLeaves, NNodes, ShapePool, Kinds
VARIABLES lf, nd, hist, step
vars == <<lf, nd, hist, step>>
view == <<lf, nd, step>>

U == -1000000      \* undetermined contents
NoInit == [k |-> "none", v |-> 0]
Slots == 1..NLeaves
Blank == [k |-> "", ok |-> <<>>, sh |-> <<>>, d |-> <<>>, rdy |-> FALSE, iv |-> NoInit, b |-> <<>>]
NoNode == [k |-> "", x |-> <<>>]
Live == {i \in Slots : lf[i].k # ""}
Of(k) == {i \in Live : lf[i].k = k}
Nodes == {n \in 1..NNodes : nd[n].k # ""}
Undet(s) == [i \in 1..SElems(s) |-> U]
Alloced(l) == l.sh # <<>>
ShapeOf(l) == IF Alloced(l) THEN l.sh ELSE l.ok
Fresh(k, s, iv) == [Blank EXCEPT !.k = k, !.ok = s, !.sh = IF Full(s) THEN s ELSE <<>>, !.d = IF Full(s) THEN Undet(s) ELSE <<>>, !.iv = iv]
Int9 == -9..9
Data(n) == {TLCEval([i \in 1..n |-> IF Mode = "one" THEN RandomElement(Int9) ELSE i])}
Users(i) == {n \in Nodes : \E m \in 1..Len(nd[n].x) : nd[n].x[m] = i}

(*------------------------ nodes computed from leaves ----------------------*)
El(l, i) == IF Len(l.d) = 1 THEN l.d[1] ELSE l.d[i]
F(k, x, y) == IF x = U \/ y = U THEN U ELSE IF k = "neg" THEN -x ELSE IF k = "add" THEN x + y ELSE x - y
ShapeNode(n, L) ==
  IF Len(n.x) = 1 THEN Elem1Shape(L[n.x[1]].sh) ELSE Elem2Shape(L[n.x[1]].sh, L[n.x[2]].sh)
Value(n, L) ==
  LET s == ShapeNode(n, L) IN
  [s |-> s, d |-> [i \in 1..SElems(s) |-> F(n.k, El(L[n.x[1]], i), El(L[n.x[Len(n.x)]], i))]]
(* a node has a value while all its leaves have contents of the shape it    *)
(* was built for                                                             *)
Sound(n, L) == \A m \in 1..Len(n.x) : LET l == L[n.x[m]] IN l.rdy /\ l.sh = l.b

Tick == step' = step + 1
Log(e) == hist' = Append(hist, e)
Skip == UNCHANGED <<lf, nd, hist>> /\ Tick
Obs(l) == [k |-> l.k, al |-> Alloced(l), s |-> ShapeOf(l), rdy |-> l.rdy, d |-> IF l.rdy THEN l.d ELSE <<>>]
SomeOdd(L) == Cardinality({n \in Nodes : ~Sound(nd[n], L)})
(* r: 1 accepted, 0 rejected, 2 either (a dependent cannot take it)          *)
Do(e, r, i, l2) ==
  LET LL == [lf EXCEPT ![i] = l2] IN
  /\ lf' = LL /\ UNCHANGED nd /\ Tick
  /\ Log(e @@ [i |-> i, r |-> IF r = 1 /\ \E n \in Users(i) : ~Sound(nd[n], LL) THEN 2 ELSE r,
               st |-> [k \in Slots |-> Obs(LL[k])]])

NewVar == \E i \in Pick(Slots \ Live) : \E s \in Pick(ShapePool) : \E ini \in Pick({0, 1, 2, 3}) : \E v \in Data(1) :
  Do([a |-> "newvar", s |-> s, ini |-> ini, v |-> v[1]], 1, i,
     IF ini = 3 THEN [Fresh("var", <<1>>, [k |-> "const", v |-> v[1]]) EXCEPT !.d = v, !.rdy = TRUE]
     ELSE Fresh("var", s, IF ini = 0 THEN NoInit ELSE [k |-> IF ini = 1 THEN "const" ELSE "rand", v |-> v[1]]))
NewPh == \E i \in Pick(Slots \ Live) : \E s \in Pick(ShapePool) : Do([a |-> "newph", s |-> s], 1, i, Fresh("ph", s, NoInit))
(* constants pad with zeros and clip to take their shape                     *)
NewConst == \E i \in Pick(Slots \ Live) : \E s \in Pick(ShapePool) : \E n \in Pick(1..9) : \E d \in Data(n) :
  LET sh == IF Full(s) THEN s ELSE LooseGuess(s, IMax(n, SKnown(s))) IN
  Do([a |-> "newconst", s |-> s, v |-> d], 1, i,
     [Fresh("const", s, NoInit) EXCEPT !.sh = sh, !.rdy = TRUE, !.d = [k \in 1..SElems(sh) |-> IF k <= n THEN d[k] ELSE 0]])

SetInit == IF Of("var") = {} THEN Skip ELSE
  \E i \in Pick(Of("var")) : \E v \in Data(1) : \E k \in Pick({"const", "rand"}) :
    Do([a |-> "setinit", v |-> v[1], k |-> k], 1, i, [lf[i] EXCEPT !.iv = [k |-> k, v |-> v[1]]])
(* random initialisers draw from [v, v + 1]: contents are undetermined       *)
Filled(l, sh) == [l EXCEPT !.sh = sh, !.rdy = TRUE, !.d = [k \in 1..SElems(sh) |-> IF l.iv.k = "const" THEN l.iv.v ELSE U]]
Init0 == LET S == {i \in Of("var") : lf[i].iv # NoInit} IN IF S = {} THEN Skip ELSE
  \E i \in Pick(S) :
    LET l == lf[i]  sh == IF Alloced(l) THEN l.sh ELSE l.ok  r == Full(sh) IN
    Do([a |-> "init", s |-> <<>>, rnd |-> l.iv.k = "rand", v |-> l.iv.v], IF r THEN 1 ELSE 0, i, IF r THEN Filled(l, sh) ELSE l)
InitS == LET S == {i \in Of("var") : lf[i].iv # NoInit} IN IF S = {} THEN Skip ELSE
  \E i \in Pick(S) : \E s \in Pick(ShapePool \ {<<>>}) :
    LET l == lf[i]
        stay == Alloced(l) /\ Compat(s, l.sh) = "yes"
        r == Full(s) /\ Compat(s, l.ok) = "yes" IN
    IF Compat(s, l.ok) = "any" \/ (Alloced(l) /\ Compat(s, l.sh) = "any") THEN Skip ELSE
    Do([a |-> "init", s |-> s, rnd |-> l.iv.k = "rand", v |-> l.iv.v], IF r THEN 1 ELSE 0, i, IF r THEN Filled(l, IF stay THEN l.sh ELSE s) ELSE l)
Assign == LET S == {i \in Of("var") : lf[i].rdy} IN IF S = {} THEN Skip ELSE
  \E i \in Pick(S) : \E j \in Pick({j \in Live \ {i} : lf[j].rdy /\ Len(lf[j].d) = Len(lf[i].d)} \cup {0}) : \E m \in Pick({"set", "add", "sub"}) :
  \E d \in Data(Len(lf[i].d)) :
    LET src == IF j = 0 THEN d ELSE lf[j].d
        new == [k \in 1..Len(src) |-> IF src[k] = U \/ (m # "set" /\ lf[i].d[k] = U) THEN U
                                      ELSE IF m = "set" THEN src[k] ELSE IF m = "add" THEN lf[i].d[k] + src[k] ELSE lf[i].d[k] - src[k]] IN
    IF \E k \in 1..Len(new) : new[k] # U /\ (new[k] > 10000 \/ new[k] < -10000) THEN Skip ELSE
    Do([a |-> "assign", j |-> j, v |-> d, m |-> m, s |-> lf[i].sh], 1, i, [lf[i] EXCEPT !.d = new])
(* raw data keeps the shape; any number of elements that fits is taken       *)
PhData == IF Of("ph") = {} THEN Skip ELSE
  \E i \in Pick(Of("ph")) : \E n \in Pick({n \in 1..12 : FitsData(ShapeOf(lf[i]), n)} \cup {0}) : \E d \in Data(n) :
    LET l == lf[i]  sh == IF Alloced(l) THEN l.sh ELSE Guess(l.ok, n) IN
    IF n = 0 THEN Skip ELSE
    Do([a |-> "data", v |-> d], 1, i, [l EXCEPT !.sh = sh, !.d = d, !.rdy = TRUE])
(* a tensor replaces shape and contents                                      *)
PhTensor == IF Of("ph") = {} THEN Skip ELSE
  \E i \in Pick(Of("ph")) : \E s \in Pick({s \in ShapePool : Full(s)} \cup (IF Users(i) # {} THEN {lf[i].b} ELSE {})) : \E d \in Data(SElems(s)) :
    Do([a |-> "tensor", s |-> s, v |-> d], 1, i, [lf[i] EXCEPT !.ok = s, !.sh = s, !.d = d, !.rdy = TRUE])

(*-------------------------- leaves as wholes ------------------------------*)
Same(i, j) == lf[i].k = lf[j].k /\ lf[i].k # "const"
CopyNew == LET S == Of("var") \cup Of("ph") IN IF S = {} \/ Live = Slots THEN Skip ELSE
  \E j \in Pick(S) : \E i \in Pick(Slots \ Live) : \E m \in Pick({"clone", "copy"}) :
    Do([a |-> "copy", j |-> j, m |-> m], 1, i, [lf[j] EXCEPT !.b = <<>>, !.d = IF lf[j].rdy THEN @ ELSE [k \in 1..Len(@) |-> U]])
CopyTo == LET S == {ij \in Live \X Live : ij[1] # ij[2] /\ Same(ij[1], ij[2])} IN IF S = {} THEN Skip ELSE
  \E ij \in Pick(S) : LET i == ij[1]  j == ij[2] IN
    \* the new contents must suit what depends on it
    IF \E n \in Users(i) : ~Sound(nd[n], [lf EXCEPT ![i] = [lf[j] EXCEPT !.b = lf[i].b]]) THEN Skip ELSE
    Do([a |-> "copyto", j |-> j], 1, i, [lf[j] EXCEPT !.b = lf[i].b, !.d = IF lf[j].rdy THEN @ ELSE [k \in 1..Len(@) |-> U]])
Rename(n, j, i) == [n EXCEPT !.x = [m \in 1..Len(@) |-> IF @[m] = j THEN i ELSE @[m]]]
(* a moved leaf takes its dependents along; nothing is left of the old one   *)
MoveNew == LET S == Of("var") \cup Of("ph") IN IF S = {} \/ Live = Slots THEN Skip ELSE
  \E j \in Pick(S) : \E i \in Pick(Slots \ Live) : \E m \in Pick({"move", "construct"}) :
    LET LL == [lf EXCEPT ![i] = lf[j], ![j] = Blank] IN
    IF \E n \in Users(j) : ~Sound(nd[n], lf) THEN Skip ELSE
    /\ lf' = LL /\ nd' = [n \in 1..NNodes |-> Rename(nd[n], j, i)] /\ Tick
    /\ Log([a |-> "move", i |-> i, j |-> j, m |-> m, r |-> 1, st |-> [k \in Slots |-> Obs(LL[k])]])
MoveTo == LET S == {ij \in Live \X Live : ij[1] # ij[2] /\ Same(ij[1], ij[2]) /\ Users(ij[1]) = {}} IN IF S = {} THEN Skip ELSE
  \E ij \in Pick(S) : LET i == ij[1]  j == ij[2]  LL == [lf EXCEPT ![i] = lf[j], ![j] = Blank] IN
    IF \E n \in Users(j) : ~Sound(nd[n], lf) THEN Skip ELSE
    /\ lf' = LL /\ nd' = [n \in 1..NNodes |-> Rename(nd[n], j, i)] /\ Tick
    /\ Log([a |-> "moveto", i |-> i, j |-> j, r |-> 1, st |-> [k \in Slots |-> Obs(LL[k])]])

(*------------------------------ dependents --------------------------------*)
(* built over leaves that have their contents                                *)
Base(l) == l.rdy /\ (l.b = <<>> \/ l.b = l.sh)
Node == LET n == CHOOSE n \in 1..NNodes + 1 : n \notin Nodes /\ \A k \in 1..n - 1 : k \in Nodes
            R == {i \in Live : Base(lf[i])} IN
  IF n > NNodes \/ R = {} THEN Skip ELSE
  \E k \in Pick({"neg", "add", "sub"}) : \E i \in Pick(R) : \E j \in Pick({j \in R : Elem2OK(lf[i].sh, lf[j].sh)}) :
    LET x == IF k = "neg" THEN <<i>> ELSE <<i, j>>
        \* requests that simplification answers without a node of its own
        dull == \A m \in 1..Len(x) : lf[x[m]].k = "const"
        zero(c) == lf[c].k = "const" /\ SElems(lf[c].sh) = 1
        new == [k |-> k, x |-> x]
        LL == [m \in Slots |-> IF \E q \in 1..Len(x) : x[q] = m THEN [lf[m] EXCEPT !.b = lf[m].sh] ELSE lf[m]] IN
    IF dull \/ (k # "neg" /\ (zero(i) \/ zero(j) \/ i = j)) \/ \E m \in Nodes : nd[m].k = k /\ {nd[m].x[q] : q \in 1..Len(nd[m].x)} = {x[q] : q \in 1..Len(x)}
    THEN Skip ELSE
    /\ lf' = LL /\ nd' = [nd EXCEPT ![n] = new] /\ Tick
    /\ Log([a |-> "node", i |-> 0, n |-> n, k |-> k, x |-> x, r |-> 1, v |-> Value(new, LL), st |-> [m \in Slots |-> Obs(LL[m])]])
RECURSIVE NoOnes(_)
NoOnes(x) == IF x # <<>> /\ x[Len(x)] = 1 THEN NoOnes(SubSeq(x, 1, Len(x) - 1)) ELSE x
(* leaves that cannot be combined: evaluation fails, and nothing else changes *)
BadNode == LET S == {ij \in Live \X Live : ij[1] # ij[2] /\ lf[ij[1]].rdy /\ lf[ij[2]].rdy /\ lf[ij[1]].k # "const" /\ lf[ij[2]].k # "const"
                       /\ SElems(lf[ij[1]].sh) > 1 /\ SElems(lf[ij[2]].sh) > 1 /\ Compat(lf[ij[1]].sh, lf[ij[2]].sh) = "no"} IN
  IF S = {} THEN Skip ELSE
  \E ij \in Pick(S) : \E k \in Pick({"mul", "matmul", "div"}) :
    IF k = "matmul" /\ MatmulOK(lf[ij[1]].sh, lf[ij[2]].sh) THEN Skip ELSE
    \* a batch of one matrix may stand for a matrix
    IF k = "matmul" /\ NoOnes(BatchOf(lf[ij[1]].sh)) = NoOnes(BatchOf(lf[ij[2]].sh)) /\ Dim(lf[ij[1]].sh, 1) = Dim(lf[ij[2]].sh, 2) THEN Skip ELSE
    UNCHANGED <<lf, nd>> /\ Tick /\
    Log([a |-> "bad", i |-> 0, k |-> k, x |-> <<ij[1], ij[2]>>, odd |-> SomeOdd(lf), r |-> 1, st |-> [m \in Slots |-> Obs(lf[m])]])
Eval == LET S == {n \in Nodes : Sound(nd[n], lf)} IN IF S = {} THEN Skip ELSE
  \E n \in Pick(S) : UNCHANGED <<lf, nd>> /\ Tick /\
    Log([a |-> "eval", i |-> 0, n |-> n, v |-> Value(nd[n], lf), odd |-> SomeOdd(lf), r |-> 1, st |-> [m \in Slots |-> Obs(lf[m])]])

Init == lf = [i \in Slots |-> Blank] /\ nd = [n \in 1..NNodes |-> NoNode] /\ hist = <<>> /\ step = 0
New(k) == IF Live = Slots THEN Skip ELSE CASE k = "newvar" -> NewVar [] k = "newph" -> NewPh [] k = "newconst" -> NewConst
Act(k) ==
  CASE k \in {"newvar", "newph", "newconst"} -> New(k)
    [] k = "setinit" -> SetInit [] k = "init" -> Init0 [] k = "inits" -> InitS [] k = "assign" -> Assign
    [] k = "data" -> PhData [] k = "tensor" -> PhTensor [] k = "copy" -> CopyNew [] k = "copyto" -> CopyTo
    [] k = "move" -> MoveNew [] k = "moveto" -> MoveTo [] k = "node" -> Node [] k = "bad" -> BadNode [] k = "eval" -> Eval
Next == step < MaxSteps /\ \E k \in Pick(1..Len(Kinds)) : Act(IF step = 0 THEN "newph" ELSE IF step = 1 THEN "newvar" ELSE Kinds[k])
Spec == Init /\ [][Next]_vars
Fin == [n \in 1..NNodes |-> IF n \in Nodes /\ Sound(nd[n], lf) THEN Value(nd[n], lf) ELSE [s |-> <<>>, d |-> <<>>]]
Export == step = MaxSteps => Emit("B", [ev |-> hist, fin |-> Fin, odd |-> SomeOdd(lf)])

(*------------------------------ what must hold ----------------------------*)
TypeOK == \A i \in Slots : LET l == lf[i] IN
  /\ Len(l.d) = SElems(l.sh) /\ (Alloced(l) => Full(l.sh)) /\ (l.rdy => Alloced(l))
  /\ (l.k = "const" => l.rdy)
(* a leaf never takes a shape it does not allow *)
Allowed == \A i \in Live : Alloced(lf[i]) => Compat(lf[i].sh, lf[i].ok) # "no"
(* contents once there do not disappear *)
Stays == [][\A i \in Slots : lf[i].rdy /\ lf'[i].k # "" => lf'[i].rdy \/ hist'[Len(hist')].a \in {"copyto"}]_vars
(* a rejected request changes nothing *)
Rejected == [][hist' # hist /\ hist'[Len(hist')].r = 0 => lf' = lf /\ nd' = nd]_vars
Others == [][hist' # hist => LET e == hist'[Len(hist')] IN
               \A k \in Slots : lf'[k] # lf[k] => e.i = k \/ e.a \in {"move", "moveto", "node"}]_vars
==============================================================================
