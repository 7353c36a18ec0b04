---------------------------------- MODULE Gen ----------------------------------
(***************************************************************************)
(* Generated nodes: nodes that take only the shape of what they are made     *)
(* over and fill it themselves.  Which object has which shape, when contents *)
(* are drawn anew (a new token) and when they must stay, who ends with whom. *)
(*   ph, var: leaves    neg, add, mul: computed    gen: generated            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxSteps, NO, ShapePool, Kinds
VARIABLES ob,    \* objects in order of creation
          hist, step
vars == <<ob, hist, step>>
view == <<ob, step>>
Pick(S) == IF Mode = "one" THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Ops == {"neg", "add", "mul"}
Rng(q) == {q[i] : i \in DOMAIN q}
New(k, a) == [k |-> k, al |-> TRUE, a |-> a, s |-> <<>>, t |-> <<0, 0>>, ini |-> "", v |-> 0, held |-> FALSE]
There == {i \in 1..Len(ob) : ob[i].al}
Of(K) == {i \in There : ob[i].k \in K}
Aud(O, s) == {o \in 1..Len(O) : O[o].al /\ s \in Rng(O[o].a)}
RECURSIVE Down(_, _)
Down(O, W) == LET Y == W \cup UNION {Aud(O, x) : x \in W} IN IF Y = W THEN W ELSE Down(O, TLCEval(Y))
Computed(O, x) == {y \in Down(O, {x}) \ {x} : O[y].k \in Ops}

(* shapes spread, generated nodes fill a shape that is new to them *)
Spread(O) ==
  TLCEval([i \in 1..Len(O) |->
     LET o == O[i] IN
     CASE o.al /\ o.k \in Ops /\ (\A x \in Rng(o.a) : O[x].s # <<>>) -> [o EXCEPT !.s = O[o.a[1]].s]
       [] o.al /\ o.k = "gen" /\ O[o.a[1]].s \notin {<<>>, o.s} -> [o EXCEPT !.s = O[o.a[1]].s, !.t = <<i, step + 1>>]
       [] OTHER -> o])
RECURSIVE Settle(_)
Settle(O) == LET P == Spread(O) IN IF P = O THEN O ELSE Settle(P)
(* what ends with D: all that is made over it, and generated nodes nobody uses any more *)
RECURSIVE Close(_, _)
Close(O, D) ==
  LET E == D \cup {o \in 1..Len(O) : O[o].al /\ Rng(O[o].a) \cap D # {}}
             \cup {g \in 1..Len(O) : O[g].al /\ O[g].k = "gen" /\ ~O[g].held /\ Aud(O, g) # {} /\ Aud(O, g) \subseteq D}
  IN IF E = D THEN D ELSE Close(O, TLCEval(E))
Faded(O, W) == {g \in W : O[g].al /\ O[g].k = "gen" /\ ~O[g].held /\ Aud(O, g) = {}}
Step(O0, R, e) ==
  \E O \in {O0} : \E D \in {Close(O, R)} :
  \E P \in {Settle(TLCEval([i \in 1..Len(O) |-> IF i \in D THEN [O[i] EXCEPT !.al = FALSE, !.a = <<>>, !.s = <<>>, !.held = FALSE] ELSE O[i]]))} :
  /\ ob' = P
  /\ step' = step + 1
  /\ \E look \in Pick(IF Mode = "one" THEN {1, 2, 3} ELSE {1}) :
     hist' = Append(hist, e @@ [x |-> 0, y |-> 0, a2 |-> <<>>, k |-> "", s |-> <<>>, v |-> 0, held |-> FALSE,
       look |-> look # 3,
       st |-> [i \in 1..Len(P) |-> [al |-> P[i].al, a |-> P[i].a, s |-> P[i].s, t |-> P[i].t, k |-> P[i].k, r |-> P[i].ini = "r", v |-> P[i].v,
                                    n |-> Cardinality(Aud(P, i)) + (IF P[i].held THEN 1 ELSE 0)]]])
Skip == UNCHANGED <<ob, hist>> /\ step' = step + 1
N == Len(ob) + 1
Room == Len(ob) < NO
Some(W) == W # {}

NewPh == IF ~Room THEN Skip ELSE Step(Append(ob, New("ph", <<>>)), {}, [a |-> "ph", x |-> N])
NewVar == IF ~Room THEN Skip ELSE \E s \in Pick(ShapePool) : \E v \in Pick(1..3) :
  Step(Append(ob, [New("var", <<>>) EXCEPT !.v = v]), {}, [a |-> "var", x |-> N, s |-> s, v |-> v])
(* a variable's shape is the one it was made with; the history tells which *)
VarShape(i) == LET m == CHOOSE m \in 1..Len(hist) : hist[m].a = "var" /\ hist[m].x = i IN hist[m].s
Fits(i, s) == \A y \in Computed(ob, i) : ob[y].s \in {<<>>, s}
Initialise == LET S == {i \in Of({"var"}) : ob[i].s = <<>>} IN IF S = {} THEN Skip ELSE
  \E i \in Pick(S) : Step([ob EXCEPT ![i].s = VarShape(i)], {}, [a |-> "init", x |-> i])
Feed == IF Of({"ph"}) = {} THEN Skip ELSE
  \E i \in Pick(Of({"ph"})) : \E s \in Pick(ShapePool) :
    IF ob[i].s # s /\ Computed(ob, i) # {} /\ ob[i].s # <<>> THEN Step(ob, {}, [a |-> "feed", x |-> i, s |-> ob[i].s])
    ELSE Step([ob EXCEPT ![i].s = s], {}, [a |-> "feed", x |-> i, s |-> s])
Generate == IF ~Room \/ There = {} THEN Skip ELSE
  \E x \in Pick(There) : \E r \in Pick({"c", "r"}) : \E v \in Pick(-2..2) : \E h \in Pick(BOOLEAN) :
    Step(Append(ob, [New("gen", <<x>>) EXCEPT !.ini = r, !.v = v, !.held = h]), {}, [a |-> "gen", x |-> N, y |-> x, k |-> r, v |-> v, held |-> h])
Others(x, k) == IF k = "neg" THEN {x} ELSE {y \in There \ {x} : ob[y].s = ob[x].s /\ ob[x].s # <<>>}
Compute == IF ~Room \/ There = {} THEN Skip ELSE
  \E k \in Pick(Ops) : \E x \in Pick(There) :
  IF Others(x, k) = {} \/ (k = "neg" /\ ob[x].k = "neg") THEN Skip ELSE
  \E y \in Pick(Others(x, k)) :
    LET a == IF k = "neg" THEN <<x>> ELSE <<x, y>> IN
    IF \E o \in There : ob[o].k = k /\ Rng(ob[o].a) = Rng(a) THEN Skip
    ELSE Step(Append(ob, New(k, a)), {}, [a |-> "op", x |-> N, k |-> k, a2 |-> a])
Hold == LET S == {g \in Of({"gen"}) : ~ob[g].held} IN IF S = {} THEN Skip ELSE
  \E g \in Pick(S) : Step([ob EXCEPT ![g].held = TRUE], {}, [a |-> "hold", x |-> g])
Drop == LET S == {g \in Of({"gen"}) : ob[g].held} IN IF S = {} THEN Skip ELSE
  \E g \in Pick(S) : LET O == [ob EXCEPT ![g].held = FALSE] IN Step(O, Faded(O, {g}), [a |-> "drop", x |-> g])
Destroy == IF There = {} THEN Skip ELSE \E x \in Pick(There) : Step(ob, {x}, [a |-> "destroy", x |-> x])
Clone == IF ~Room \/ Of({"gen"}) = {} THEN Skip ELSE
  \E g \in Pick(Of({"gen"})) : Step(Append(ob, [ob[g] EXCEPT !.held = FALSE]), {}, [a |-> "clone", x |-> N, y |-> g])
(* what used the moved one uses the new one; nothing is left of the old *)
Over(O, g, n) == TLCEval([i \in 1..Len(O) |-> [O[i] EXCEPT !.a = [j \in DOMAIN @ |-> IF @[j] = g THEN n ELSE @[j]]]])
Gone(O, g) == [O EXCEPT ![g] = [@ EXCEPT !.al = FALSE, !.a = <<>>, !.s = <<>>, !.held = FALSE]]
Move == IF ~Room \/ Of({"gen"}) = {} THEN Skip ELSE
  \E g \in Pick(Of({"gen"})) : Step(Gone(Over(Append(ob, ob[g]), g, N), g), {}, [a |-> "move", x |-> N, y |-> g])
Apart(x, y) == x \notin Down(ob, {y}) /\ y \notin Down(ob, {x})
Ready == {g \in Of({"gen"}) : ob[g].s # <<>>}
Suits(x, y) == Apart(x, y) /\ (Computed(ob, x) # {} => ob[x].s = ob[y].s)
Assign == LET S == {p \in Ready \X Ready : p[1] = p[2] \/ Suits(p[1], p[2])} IN IF S = {} THEN Skip ELSE
  \E p \in Pick(S) :
    IF p[1] = p[2] THEN Step(ob, {}, [a |-> "assign", x |-> p[1], y |-> p[2]])
    ELSE LET O == [ob EXCEPT ![p[1]] = [ob[p[2]] EXCEPT !.held = ob[p[1]].held]]
         IN Step(O, Faded(O, Rng(ob[p[1]].a)), [a |-> "assign", x |-> p[1], y |-> p[2]])
MoveTo == LET S == {p \in Ready \X Ready : p[1] # p[2] /\ Suits(p[1], p[2])} IN IF S = {} THEN Skip ELSE
  \E p \in Pick(S) :
    LET O == Gone(Over([ob EXCEPT ![p[1]] = [ob[p[2]] EXCEPT !.held = ob[p[1]].held \/ ob[p[2]].held]], p[2], p[1]), p[2])
    IN Step(O, Faded(O, Rng(ob[p[1]].a)), [a |-> "moveto", x |-> p[1], y |-> p[2]])

Init == ob = <<>> /\ hist = <<>> /\ step = 0
Act(k) == CASE k = "ph" -> NewPh [] k = "var" -> NewVar [] k = "init" -> Initialise [] k = "feed" -> Feed
            [] k = "gen" -> Generate [] k = "op" -> Compute [] k = "hold" -> Hold [] k = "drop" -> Drop
            [] k = "destroy" -> Destroy [] k = "clone" -> Clone [] k = "move" -> Move [] k = "assign" -> Assign [] k = "moveto" -> MoveTo
Next == step < MaxSteps /\ \E k \in Pick(1..Len(Kinds)) : Act(IF step = 0 THEN "ph" ELSE IF step = 1 THEN "var" ELSE Kinds[k])
Spec == Init /\ [][Next]_vars
Export == step = MaxSteps /\ hist # <<>> => PrintT("@@B" \o ToJson([ev |-> hist]))

(*----------------------------- what must hold ------------------------------*)
TypeOK == \A i \in There : /\ \A x \in Rng(ob[i].a) : ob[x].al
                           /\ (ob[i].k = "gen") = (Len(ob[i].a) = 1 /\ ob[i].k \notin Ops)
Loopless == \A i \in There : \A x \in Rng(ob[i].a) : x \notin Down(ob, {i})
(* a generated node has the shape of what it is made over *)
Follows == \A g \in Of({"gen"}) : LET s == ob[ob[g].a[1]].s IN s # <<>> => ob[g].s = s
(* its contents are drawn anew only for a shape it did not have, or taken over by assignment *)
Lasting == [][Len(hist') > Len(hist) => LET e == hist'[Len(hist')] IN
               \A g \in Of({"gen"}) : ob'[g].al /\ ob'[g].t # ob[g].t =>
                 ob'[g].s # ob[g].s \/ (e.a \in {"assign", "moveto"} /\ e.x = g)]_vars
(* no generated node ends while something that stays uses it *)
Used == [][\A g \in Of({"gen"}) : ~ob'[g].al /\ Len(hist') > Len(hist) =>
             LET e == hist'[Len(hist')] IN
             (e.x = g /\ e.a \in {"destroy", "drop"}) \/ (e.y = g /\ e.a \in {"move", "moveto"})
             \/ ~ob'[ob[g].a[1]].al \/ (~ob[g].held /\ \A o \in Aud(ob, g) : ~ob'[o].al \/ g \notin Rng(ob'[o].a))]_vars
==============================================================================
