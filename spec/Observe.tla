-------------------------------- MODULE Observe --------------------------------
(***************************************************************************)
(* Producers and consumers.  A consumer holds an ordered list of producers,  *)
(* with repetitions and gaps; a producer tells its consumers of changes and  *)
(* of its end.  Some consumers end when they lose a producer, some producers *)
(* when their last consumer goes, some are tied to the life of a consumer.   *)
(*   src  producer                tmp  producer, ends with its last consumer *)
(*   snk  consumer                brk  consumer, ends when it loses one      *)
(*   once consumer, ends when told of a change or losing a producer          *)
(*   node both, passes changes on, ends when it loses a producer             *)
(*   link both, passes changes on    gen  a node that also ends with its     *)
(*                                        last consumer                      *)
(* Who consumes whom is always read off the consumers' lists.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Mode,    \* "all": every alternative, "one": a sampled one
          MaxSteps, NO, MaxDeps, Kinds, OKinds
VARIABLES ob,      \* objects in order of creation: [k, al: still there, d: its list of producers, 0: gap, r: its links are on record]
          ties,    \* <<consumer, producer that ends with it>>
          hist, step
vars == <<ob, ties, hist, step>>
view == <<ob, ties, step>>
Producers == {"src", "tmp", "node", "link", "gen"}
Consumers == {"snk", "brk", "once", "node", "link", "gen"}
Breaks == {"brk", "once", "node", "gen"}
Fades == {"tmp", "gen"}
Killers == {"snk", "brk", "node", "link"}
Pure == {"src", "tmp"}

Pick(S) == IF Mode = "one" THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Rng(q) == {q[i] : i \in DOMAIN q}
There(O) == {i \in 1..Len(O) : O[i].al}
OfKind(O, K) == {i \in There(O) : O[i].k \in K}
Aud(O, s) == {o \in There(O) : s \in Rng(O[o].d)}
RECURSIVE Trim(_)
Trim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
(* all producers X hold on to, directly or not *)
RECURSIVE Up(_, _)
Up(O, X) == LET Y == X \cup UNION {Rng(O[x].d) \ {0} : x \in X} IN IF Y = X THEN X ELSE Up(O, TLCEval(Y))
Ordered(O) == \A o \in There(O) : o \notin Up(O, Rng(O[o].d) \ {0})

(* what ends with D *)
RECURSIVE Close(_, _, _)
Close(O, T, D) ==
  LET E == D \cup {o \in OfKind(O, Breaks) : Rng(O[o].d) \cap D # {}}
             \cup {s \in OfKind(O, Fades) : Aud(O, s) # {} /\ Aud(O, s) \subseteq D}
             \cup {t[2] : t \in {u \in T : u[1] \in D}}
  IN IF E = D THEN D ELSE Close(O, T, TLCEval(E))
Lose(d, D) == IF Rng(d) \cap D = {} THEN d ELSE Trim([i \in DOMAIN d |-> IF d[i] \in D THEN 0 ELSE d[i]])
Bury(O, D) == TLCEval([i \in 1..Len(O) |-> IF i \in D THEN [O[i] EXCEPT !.al = FALSE, !.d = <<>>] ELSE [O[i] EXCEPT !.d = Lose(@, D)]])
(* of the producers X that lost a consumer, those that end because of it *)
Faded(O, X) == {s \in X \cap OfKind(O, Fades) : Aud(O, s) = {}}

(* the step to objects O and ties T after which R end and with them whatever has to *)
Step(O0, T, R, e) ==
  \E O \in {O0} : \E D \in {Close(O, T, R)} : \E P \in {Bury(O, D)} :
  /\ ob' = P
  /\ ties' = {t \in T : t[1] \notin D /\ t[2] \notin D}
  /\ step' = step + 1
  /\ hist' = Append(hist, [a |-> e.a, x |-> e.x, y |-> e.y, i |-> e.i, k |-> e.k,
       d |-> e.d, tell |-> e.tell, r |-> [o \in 1..Len(P) |-> P[o].r],
       lost |-> [o \in 1..Len(O) |-> IF o \in D \/ o \in e.quiet THEN 0 ELSE Cardinality(Rng(O[o].d) \cap D) + (IF o \in e.broken THEN 1 ELSE 0)],
       st |-> [o \in 1..Len(P) |-> IF P[o].al THEN P[o].d ELSE <<-1>>]])
E0 == [x |-> 0, y |-> 0, i |-> 0, k |-> "", d |-> <<>>, tell |-> {}, quiet |-> {}, broken |-> {}]
Ev(e) == e @@ E0
Skip == UNCHANGED <<ob, ties, hist>> /\ step' = step + 1
Put(O, o, d) == [O EXCEPT ![o].d = d]

Prod == OfKind(ob, Producers)
Takers == OfKind(ob, Consumers)
Offers == Prod \cup {0}
(* a list of producers, gaps now and then *)
Lists == IF Mode = "all" THEN UNION {[1..n -> Offers] : n \in 0..MaxDeps}
         ELSE LET Entry(u) == IF Prod = {} \/ RandomElement(1..7) = 1 THEN 0 ELSE RandomElement(Prod)
                  n == RandomElement(0..MaxDeps)
              IN {[i \in 1..n |-> Entry(i)]}

New == IF Len(ob) >= NO THEN Skip ELSE
  \E n \in Pick(1..Len(OKinds)) : LET k == OKinds[n] IN
    IF k \in Pure THEN Step(Append(ob, [k |-> k, al |-> TRUE, d |-> <<>>, r |-> FALSE]), ties, {}, Ev([a |-> "new", x |-> Len(ob) + 1, k |-> k]))
    ELSE \E d \in Lists : \E r \in Pick(IF Mode = "one" THEN BOOLEAN ELSE {TRUE}) : Step(Append(ob, [k |-> k, al |-> TRUE, d |-> d, r |-> r]), ties, {}, Ev([a |-> "new", x |-> Len(ob) + 1, k |-> k, d |-> d]))
Add == IF Takers = {} THEN Skip ELSE
  \E o \in Pick(Takers) : \E s \in Pick(Offers) : LET O == Put(ob, o, Append(ob[o].d, s)) IN
    IF Len(ob[o].d) > MaxDeps + 1 \/ ~Ordered(O) THEN Skip ELSE Step(O, ties, {}, Ev([a |-> "add", x |-> o, y |-> s]))
(* taking away what is not there is refused *)
Remove == IF Takers = {} THEN Skip ELSE
  \E o \in Pick(Takers) : \E i \in Pick(1..(Len(ob[o].d) + 1)) :
    IF i > Len(ob[o].d) THEN Step(ob, ties, {}, Ev([a |-> "remove", x |-> o, i |-> i, k |-> "no"]))
    ELSE LET s == ob[o].d[i]  O == IF s = 0 THEN ob ELSE Put(ob, o, Trim([ob[o].d EXCEPT ![i] = 0]))
         IN Step(O, ties, IF s = 0 THEN {} ELSE Faded(O, {s}), Ev([a |-> "remove", x |-> o, i |-> i]))
Replace == IF Takers = {} THEN Skip ELSE
  \E o \in Pick(Takers) : \E s \in Pick(Offers) : \E i \in Pick(1..(Len(ob[o].d) + 2)) :
    LET d == ob[o].d
        was == IF i <= Len(d) THEN d[i] ELSE 0
        O == Put(ob, o, [j \in 1..(IF i > Len(d) THEN i ELSE Len(d)) |-> IF j = i THEN s ELSE IF j <= Len(d) THEN d[j] ELSE 0])
    IN IF i > MaxDeps + 2 \/ ~Ordered(O) THEN Skip
       ELSE Step(O, ties, IF was \in {0, s} THEN {} ELSE Faded(O, {was}), Ev([a |-> "replace", x |-> o, y |-> s, i |-> i]))
Tie == IF OfKind(ob, Killers) = {} \/ OfKind(ob, Pure) = {} THEN Skip ELSE
  \E o \in Pick(OfKind(ob, Killers)) : \E s \in Pick(OfKind(ob, Pure)) : \E via \in Pick({"a", "b"}) :
    Step(ob, ties \cup {<<o, s>>}, {}, Ev([a |-> "tie", x |-> o, y |-> s, k |-> via]))
Untie == IF ties = {} THEN Skip ELSE
  \E t \in Pick(ties) : \E via \in Pick({"a", "b"}) : Step(ob, ties \ {t}, {}, Ev([a |-> "untie", x |-> t[1], y |-> t[2], k |-> via]))
Destroy == IF There(ob) = {} THEN Skip ELSE \E x \in Pick(There(ob)) : Step(ob, ties, {x}, Ev([a |-> "destroy", x |-> x]))

(* every consumer of s now consumes n instead *)
Over(O, s, n) == TLCEval([o \in 1..Len(O) |-> [O[o] EXCEPT !.d = [i \in DOMAIN @ |-> IF @[i] = s THEN n ELSE @[i]]]])
Steal == IF Prod = {} THEN Skip ELSE
  \E s \in Pick(Prod) : \E f \in Pick(Prod) : LET O == Over(ob, f, s) IN
    IF ~Ordered(O) THEN Skip
    ELSE Step(O, ties, IF s = f \/ Aud(ob, f) = {} THEN {} ELSE Faded(O, {f}), Ev([a |-> "steal", x |-> s, y |-> f]))
Copy == IF Len(ob) >= NO \/ There(ob) = {} THEN Skip ELSE
  \E p \in Pick(There(ob)) : Step(Append(ob, ob[p]), ties, {}, Ev([a |-> "copy", x |-> Len(ob) + 1, y |-> p, k |-> ob[p].k]))
Move == IF Len(ob) >= NO \/ There(ob) = {} THEN Skip ELSE
  \E p \in Pick(There(ob)) : LET n == Len(ob) + 1 IN
    Step(Put(Over(Append(ob, ob[p]), p, n), p, <<>>), ties, {}, Ev([a |-> "move", x |-> n, y |-> p, k |-> ob[p].k]))
(* assigning drops what the target consumed; consumers of the target stay *)
Alike(p) == {o \in There(ob) : ob[o].k = ob[p].k}
Apart(x, y) == x \notin Up(ob, {y}) /\ y \notin Up(ob, {x})
Assign == IF There(ob) = {} THEN Skip ELSE
  \E p \in Pick(There(ob)) : \E o \in Pick(Alike(p)) : LET O == [ob EXCEPT ![o].d = ob[p].d, ![o].r = ob[p].r]  R == Faded(O, Rng(ob[o].d) \ {0}) IN
    IF o = p THEN Step(ob, ties, {}, Ev([a |-> "assign", x |-> o, y |-> p]))
    ELSE IF ~Apart(o, p) THEN Skip ELSE Step(O, ties, R, Ev([a |-> "assign", x |-> o, y |-> p]))
MoveTo == IF There(ob) = {} THEN Skip ELSE
  \E p \in Pick(There(ob)) : \E o \in Pick(Alike(p)) :
    LET O == Put([Over(ob, p, o) EXCEPT ![o].d = ob[p].d, ![o].r = ob[p].r], p, <<>>)  R == Faded(O, Rng(ob[o].d) \ {0}) IN
    IF o = p THEN Step(ob, ties, {}, Ev([a |-> "moveto", x |-> o, y |-> p]))
    ELSE IF ~Apart(o, p) \/ ~Ordered(O) THEN Skip ELSE Step(O, ties, R, Ev([a |-> "moveto", x |-> o, y |-> p]))

(* how often x tells of a change when r does *)
RECURSIVE Times(_, _)
Times(r, x) == IF x = r THEN 1 ELSE LET S == Rng(ob[x].d) \ {0} IN FoldSet(LAMBDA s, n : n + Times(r, s), 0, S)
Notify == IF Prod = {} THEN Skip ELSE
  \E r \in Pick(Prod) :
    LET told == {o \in Takers \ {r} : \E s \in Rng(ob[o].d) \ {0} : Times(r, s) > 0}
        R == {o \in told : ob[o].k = "once"}
        talk == {r} \cup {o \in told : ob[o].k \in Producers}
    IN IF Close(ob, ties, R) \cap talk # {} THEN Skip
       ELSE Step(ob, ties, R, Ev([a |-> "notify", x |-> r,
              tell |-> {[o |-> o, s |-> s, n |-> Times(r, s)] : o \in told, s \in {x \in Prod : Times(r, x) > 0}} ]))
Break == LET S == OfKind(ob, {"src", "node", "link"}) IN IF S = {} THEN Skip ELSE
  \E s \in Pick(S) :
    LET A == Aud(ob, s)
        R == {o \in A : ob[o].k \in Breaks}
        O == [o \in 1..Len(ob) |-> IF o \in A \ R THEN [ob[o] EXCEPT !.d = Lose(@, {s})] ELSE ob[o]]
    IN IF s \in Close(O, ties, R) THEN Skip ELSE Step(O, ties, R, Ev([a |-> "break", x |-> s, broken |-> A \ R]))

Init == ob = <<>> /\ ties = {} /\ hist = <<>> /\ step = 0
Act(k) == CASE k = "new" -> New [] k = "add" -> Add [] k = "remove" -> Remove [] k = "replace" -> Replace
            [] k = "tie" -> Tie [] k = "untie" -> Untie [] k = "destroy" -> Destroy [] k = "steal" -> Steal
            [] k = "copy" -> Copy [] k = "move" -> Move [] k = "assign" -> Assign [] k = "moveto" -> MoveTo
            [] k = "notify" -> Notify [] k = "break" -> Break
Next == step < MaxSteps /\ \E k \in Pick(1..Len(Kinds)) : Act(Kinds[k])
Spec == Init /\ [][Next]_vars
Export == step = MaxSteps /\ hist # <<>> => PrintT("@@B" \o ToJson([ev |-> hist]))

(*----------------------------- what must hold ------------------------------*)
TypeOK == \A o \in 1..Len(ob) : /\ ob[o].k \in Producers \cup Consumers
                                /\ Rng(ob[o].d) \subseteq 0..Len(ob)
                                /\ (~ob[o].al => ob[o].d = <<>>)
                                /\ (ob[o].k \in Pure => ob[o].d = <<>>)
(* nobody consumes, or is tied to, what is gone *)
NoneGone == /\ \A o \in 1..Len(ob) : \A s \in Rng(ob[o].d) \ {0} : ob[s].al /\ ob[s].k \in Producers
            /\ \A t \in ties : ob[t[1]].al /\ ob[t[2]].al
Loopless == Ordered(ob)
(* one that ends with a producer it loses never has fewer while it lives, unless asked to let go *)
Keeps == [][\A o \in There(ob) : LET a == hist'[Len(hist')] IN
              Len(hist') > Len(hist) /\ a.a \in {"destroy", "break"} /\ o \in There(ob') /\ ob[o].k \in Breaks => ob'[o].d = ob[o].d]_vars
(* nothing ends but what was destroyed, lost a producer, its last consumer or what it is tied to *)
Reasons == [][Len(hist') > Len(hist) => LET a == hist'[Len(hist')] IN
              \A x \in There(ob) \ There(ob') :
                \/ a.a = "destroy" /\ a.x = x
                \/ ob[x].k = "once" /\ a.a = "notify"
                \/ ob[x].k \in Breaks /\ (\E s \in Rng(ob[x].d) \ {0} : s \notin There(ob') \/ (a.a = "break" /\ s = a.x))
                \/ ob[x].k \in Fades /\ Aud(ob, x) # {} /\ Aud(ob', x) = {}
                \/ \E t \in ties : t[2] = x /\ t[1] \notin There(ob')]_vars
(* the lists of those that stay change only where a producer went or by name *)
Frame == [][Len(hist') > Len(hist) => LET a == hist'[Len(hist')] IN
              \A o \in (There(ob) \cap There(ob')) \ {a.x} : \A i \in DOMAIN ob'[o].d :
                \/ i \in DOMAIN ob[o].d /\ ob[o].d[i] = ob'[o].d[i]
                \/ ob'[o].d[i] = 0
                \/ a.a \in {"steal", "move", "moveto"} /\ ob[o].d[i] = a.y /\ ob'[o].d[i] = a.x]_vars
==============================================================================
