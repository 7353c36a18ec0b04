-------------------------------- MODULE Viewer --------------------------------
(***************************************************************************)
(* Viewers following producers and consumers from elsewhere.  A recorder     *)
(* offers, for every link and every producer it ever heard of, the latest    *)
(* news; a viewer may come at any time, is told the latest news of each in    *)
(* its own time, and may take its leave, properly or not.  When the recorder *)
(* stops all viewers are let go and the producers and consumers carry on.    *)
(***************************************************************************)
EXTENDS Observe
CONSTANTS MaxViews
VARIABLES up,      \* the recorder is running
          edge,    \* what it has to say of links: link -> is there
          node,    \* what it has to say of producers: producer -> "changed", "gone"
          vs       \* viewers in order of arrival: [on, edge, node: what they were told, due: what they have to be told]
allvars == <<vars, up, edge, node, vs>>
vview == <<view, up, edge, node, vs>>
viewvars == <<up, edge, node, vs>>

(* links of consumers that are not to be recorded may be left out *)
LinksOf(O) == {<<o, s, i>> \in (1..Len(O)) \X (1..Len(O)) \X (1..(MaxDeps + 2)) : O[o].al /\ i \in DOMAIN O[o].d /\ O[o].d[i] = s}
None == [x \in {} |-> FALSE]
Told(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
On == {v \in 1..Len(vs) : vs[v].on}
Event(x) == Step(ob, ties, {}, Ev(x))
(* the latest event tells of these producers changing *)
Changed(e) == IF e.a = "notify" THEN {e.x} \cup {t.o : t \in e.tell} ELSE {}

(* the recorder hears what producers and consumers do *)
Hear ==
  IF ~up \/ Len(hist') = Len(hist) THEN UNCHANGED viewvars ELSE
  LET L == LinksOf(ob)  M == LinksOf(ob')
      gone == {x \in OfKind(ob, Producers) : ~ob'[x].al}
      chg == {x \in Changed(hist'[Len(hist')]) \ gone : ob[x].k \in Producers}
      lost == {k \in L \ M : k[2] \notin gone}   \* the links of a producer go with it
      news == {<<"e", k>> : k \in lost \cup (M \ L)} \cup {<<"n", x>> : x \in gone \cup chg}
  IN /\ edge' = [k \in DOMAIN edge \cup M |-> IF k \in lost THEN FALSE ELSE IF k \in M THEN TRUE ELSE edge[k]]
     /\ node' = [x \in DOMAIN node \cup gone \cup chg |-> IF x \in gone THEN "gone" ELSE IF x \in chg THEN "changed" ELSE node[x]]
     /\ vs' = [v \in 1..Len(vs) |-> IF vs[v].on THEN [vs[v] EXCEPT !.due = @ \cup news] ELSE vs[v]]
     /\ up' = up

(* a late viewer is not left behind *)
View == IF Len(vs) >= MaxViews \/ ~up THEN Skip /\ UNCHANGED viewvars ELSE
  /\ Event([a |-> "view", x |-> Len(vs) + 1])
  /\ vs' = Append(vs, [on |-> TRUE, edge |-> None, node |-> None, due |-> {<<"e", k>> : k \in DOMAIN edge} \cup {<<"n", x>> : x \in DOMAIN node}])
  /\ UNCHANGED <<up, edge, node>>
Leave == IF On = {} THEN Skip /\ UNCHANGED viewvars ELSE
  \E v \in Pick(On) : \E how \in Pick({"asks", "breaks"}) :
    /\ Event([a |-> "leave", x |-> v, k |-> how])
    /\ vs' = [vs EXCEPT ![v].on = FALSE, ![v].due = {}]
    /\ UNCHANGED <<up, edge, node>>
(* any order; news that is out of date is never told *)
Tell == \E v \in On : \E n \in vs[v].due :
  /\ vs' = [vs EXCEPT ![v].due = @ \ {n}, ![v].edge = IF n[1] = "e" THEN Told(@, n[2], edge[n[2]]) ELSE @,
                      ![v].node = IF n[1] = "n" THEN Told(@, n[2], node[n[2]]) ELSE @]
  /\ UNCHANGED <<vars, up, edge, node>>
(* waiting until everyone is told everything *)
Settled == [v \in 1..Len(vs) |-> IF vs[v].on THEN [vs[v] EXCEPT !.due = {}, !.edge = edge, !.node = node] ELSE vs[v]]
Pairs(f) == {[x |-> k, v |-> f[k]] : k \in DOMAIN f}
Settle == IF On = {} THEN Skip /\ UNCHANGED viewvars ELSE
  /\ Event([a |-> "settle"]) /\ vs' = Settled /\ UNCHANGED <<up, edge, node>>
Stop == IF ~up \/ step < MaxSteps - 6 THEN Skip /\ UNCHANGED viewvars ELSE
  /\ \E how \in Pick({"ends", "deaf"}) : Event([a |-> "stop", k |-> how])   \* or is followed by one that nobody can reach
  /\ up' = FALSE
  /\ vs' = [v \in 1..Len(vs) |-> [vs[v] EXCEPT !.on = FALSE, !.due = {}]]
  /\ UNCHANGED <<edge, node>>

VAct(k) == CASE k = "view" -> View [] k = "leave" -> Leave [] k = "settle" -> Settle [] k = "stop" -> Stop
             [] OTHER -> Act(k) /\ Hear
VInit == Init /\ up = TRUE /\ edge = None /\ node = None /\ vs = <<>>
VNext == (step < MaxSteps /\ \E k \in Pick(1..Len(Kinds)) : VAct(Kinds[k])) \/ (Mode = "all" /\ Tell)
VSpec == VInit /\ [][VNext]_allvars /\ WF_allvars(Tell)

(*----------------------------- what must hold ------------------------------*)
Present(f, g) == {k \in DOMAIN f : f[k] /\ ~(k[2] \in DOMAIN g /\ g[k[2]] = "gone")}
(* who has been told everything sees the links there are, and whom it took for there is there *)
Sees == up => \A v \in On : vs[v].due = {} =>
          /\ Present(vs[v].edge, vs[v].node) = LinksOf(ob)
          /\ \A x \in DOMAIN vs[v].node : (vs[v].node[x] = "gone") = ~ob[x].al
(* what is not due is as it was told *)
NotDue == \A v \in On : /\ \A k \in DOMAIN edge : <<"e", k>> \notin vs[v].due => k \in DOMAIN vs[v].edge /\ vs[v].edge[k] = edge[k]
                        /\ \A x \in DOMAIN node : <<"n", x>> \notin vs[v].due => x \in DOMAIN vs[v].node /\ vs[v].node[x] = node[x]
(* nobody is told of what never was *)
Honest == \A v \in 1..Len(vs) : DOMAIN vs[v].edge \subseteq DOMAIN edge /\ DOMAIN vs[v].node \subseteq DOMAIN node
(* the recorder's picture is the present one *)
Records == up => Present(edge, node) = LinksOf(ob)
(* in the end every viewer that stays is told everything *)
Informed == \A v \in 1..MaxViews : []<>(v > Len(vs) \/ ~vs[v].on \/ vs[v].due = {})
==============================================================================
