--------------------------------- MODULE Stop ---------------------------------
(***************************************************************************)
(* Threads that can be asked to stop, and the handles they are asked through *)
(* A worker waits for the request, checks for it over and over, checks once, *)
(* or does not care; "late" ones come to wait, "check" ones to check, only   *)
(* when released by the environment.  A handle may be moved, joined,         *)
(* detached, assigned over and destroyed; what has to wait for the worker    *)
(* goes on beside the rest.                                                  *)
(***************************************************************************)
EXTENDS Enc, FiniteSets
CONSTANTS MaxSteps, NH, NW, Kinds, WKinds
VARIABLES ws,       \* workers in order of their start: [k, rel, req, thrown, end]
          hs,       \* handle -> [st: "none", "there", "busy"; w: worker its requests reach, 0: none; j: to be joined]
          ops,      \* handle -> what it waits for: [op, w, from], op = "" if nothing
          hist, step
vars == <<ws, hs, ops, hist, step>>
view == <<ws, hs, ops, step>>
H == 1..NH
NoOp == [op |-> "", w |-> 0, from |-> 0]
None == [st |-> "none", w |-> 0, j |-> FALSE]
Empty == [st |-> "there", w |-> 0, j |-> FALSE]

(* what makes a worker end *)
Done(w) == CASE w.k \in {"wait", "poll"} -> w.req
             [] w.k = "late" -> w.rel /\ w.req
             [] OTHER -> w.rel
(* everything that has to end does, then what waited for it goes on *)
Ended(W) == [i \in 1..Len(W) |-> [W[i] EXCEPT !.end = @ \/ Done(W[i])]]
Over(W, O) == {h \in H : O[h].op # "" /\ W[O[h].w].end}
After(h, S, O) ==
  CASE O[h].op = "join" -> [S[h] EXCEPT !.j = FALSE]
    [] O[h].op = "destroy" -> None
    [] O[h].op = "over" -> S[O[h].from]
(* one step: the workers W, handles S, pending operations O it leads to *)
Settle(W, S, O, e) ==
  LET W2 == Ended(W)  F == Over(W2, O) IN
  /\ ws' = W2
  /\ hs' = [h \in H |-> IF h \in F THEN After(h, S, O) ELSE IF \E g \in F : O[g].op = "over" /\ O[g].from = h THEN Empty ELSE S[h]]
  /\ ops' = [h \in H |-> IF h \in F THEN NoOp ELSE O[h]]
  /\ step' = step + 1
  /\ hist' = Append(hist, e @@ [h |-> 0, g |-> 0, w |-> 0, k |-> "", fin |-> F,
                                ended |-> {i \in 1..Len(W2) : W2[i].end}, thrown |-> {i \in 1..Len(W2) : W2[i].thrown},
                                jn |-> {h \in H : hs'[h].st = "there" /\ hs'[h].j}])
Skip == UNCHANGED <<ws, hs, ops, hist>> /\ step' = step + 1

There == {h \in H : hs[h].st = "there"}
Sources == {O.from : O \in {ops[h] : h \in H}}
(* nothing else is done with a handle that waits; while it is only joined it can still be asked to stop *)
Free == {h \in There : ops[h].op = "" /\ h \notin Sources}
Alive(h) == hs[h].j /\ ~ws[hs[h].w].end
NewWorker(k) == [k |-> k, rel |-> FALSE, req |-> FALSE, thrown |-> FALSE, end |-> FALSE]

New == IF {h \in H : hs[h].st = "none"} = {} THEN Skip ELSE
  \E h \in Pick({h \in H : hs[h].st = "none"}) : Settle(ws, [hs EXCEPT ![h] = Empty], ops, [a |-> "new", h |-> h])
Start == IF Len(ws) >= NW THEN Skip ELSE
  \E h \in Pick({h \in H : hs[h].st = "none"} \cup {h \in Free : ~Alive(h)}) : \E k \in Pick(WKinds) :
    Settle(Append(ws, NewWorker(k)), [hs EXCEPT ![h] = [st |-> "there", w |-> Len(ws) + 1, j |-> TRUE]], ops, [a |-> "start", h |-> h, k |-> k, w |-> Len(ws) + 1])
Ask(h) == IF hs[h].w = 0 THEN ws ELSE [ws EXCEPT ![hs[h].w].req = TRUE]
CanAsk == Free \cup {h \in There : ops[h].op = "join"}
Request == IF CanAsk = {} THEN Skip ELSE
  \E h \in Pick(CanAsk) : \E n \in Pick({1, 1, 2}) : Settle(Ask(h), hs, ops, [a |-> "stop", h |-> h, k |-> IF n = 2 THEN "two" ELSE ""])
(* the request comes while its worker is about to wait for it *)
Racy == {h \in CanAsk : hs[h].w # 0 /\ LET w == ws[hs[h].w] IN w.k = "late" /\ ~w.rel /\ ~w.req}
Race == IF Racy = {} THEN Skip ELSE
  \E h \in Pick(Racy) : Settle([ws EXCEPT ![hs[h].w].req = TRUE, ![hs[h].w].rel = TRUE], hs, ops, [a |-> "race", h |-> h, w |-> hs[h].w])
Held == {i \in 1..Len(ws) : ~ws[i].rel /\ ws[i].k \in {"late", "work", "check"}}
Release == IF Held = {} THEN Skip ELSE
  \E i \in Pick(Held) : Settle([ws EXCEPT ![i].rel = TRUE, ![i].thrown = ws[i].k = "check" /\ ws[i].req], hs, ops, [a |-> "release", w |-> i])
(* what waits for the worker is begun beside the rest unless that has ended *)
Join == LET S == {h \in Free : hs[h].j} IN IF S = {} THEN Skip ELSE
  \E h \in Pick(S) : IF Alive(h) THEN Settle(ws, hs, [ops EXCEPT ![h] = [op |-> "join", w |-> hs[h].w, from |-> 0]], [a |-> "join", h |-> h, k |-> "begin"])
                     ELSE Settle(ws, [hs EXCEPT ![h].j = FALSE], ops, [a |-> "join", h |-> h])
Detach == LET S == {h \in Free : hs[h].j} IN IF S = {} THEN Skip ELSE
  \E h \in Pick(S) : Settle(ws, [hs EXCEPT ![h].j = FALSE], ops, [a |-> "detach", h |-> h])
(* nobody could ask it any more, so it must end by itself *)
WillEnd(h) == ~Alive(h) \/ ws[hs[h].w].req \/ ws[hs[h].w].k \in {"work", "check"}
Destroy == LET S == {h \in Free : WillEnd(h)} IN IF S = {} THEN Skip ELSE
  \E h \in Pick(S) : IF Alive(h) THEN Settle(ws, hs, [ops EXCEPT ![h] = [op |-> "destroy", w |-> hs[h].w, from |-> 0]], [a |-> "destroy", h |-> h, k |-> "begin"])
                     ELSE Settle(ws, [hs EXCEPT ![h] = None], ops, [a |-> "destroy", h |-> h])
Move == IF {h \in H : hs[h].st = "none"} = {} \/ Free = {} THEN Skip ELSE
  \E h \in Pick({h \in H : hs[h].st = "none"}) : \E g \in Pick(Free) :
    Settle(ws, [hs EXCEPT ![h] = hs[g], ![g] = Empty], ops, [a |-> "move", h |-> h, g |-> g])
MoveTo == LET S == {h \in Free : WillEnd(h)} IN IF S = {} THEN Skip ELSE
  \E h \in Pick(S) : \E g \in Pick(Free) :
    IF g = h THEN Settle(ws, hs, ops, [a |-> "moveto", h |-> h, g |-> g])
    ELSE IF Alive(h) THEN Settle(ws, hs, [ops EXCEPT ![h] = [op |-> "over", w |-> hs[h].w, from |-> g]], [a |-> "moveto", h |-> h, g |-> g, k |-> "begin"])
    ELSE Settle(ws, [hs EXCEPT ![h] = hs[g], ![g] = Empty], ops, [a |-> "moveto", h |-> h, g |-> g])

Init == ws = <<>> /\ hs = [h \in H |-> None] /\ ops = [h \in H |-> NoOp] /\ hist = <<>> /\ step = 0
Act(k) == CASE k = "new" -> New [] k = "start" -> Start [] k = "stop" -> Request [] k = "race" -> Race [] k = "release" -> Release
            [] k = "join" -> Join [] k = "detach" -> Detach [] k = "destroy" -> Destroy [] k = "move" -> Move [] k = "moveto" -> MoveTo
Next == step < MaxSteps /\ \E k \in Pick(1..Len(Kinds)) : Act(Kinds[k])
Spec == Init /\ [][Next]_vars
Export == step = MaxSteps /\ hist # <<>> => Emit("B", [nh |-> NH, ev |-> hist])

(*----------------------------- what must hold ------------------------------*)
TypeOK == /\ \A h \in H : hs[h].w \in 0..Len(ws) /\ (hs[h].j => hs[h].w # 0) /\ (ops[h].op # "" => hs[h].st = "there" /\ hs[h].j)
          /\ \A h, g \in H : h # g /\ hs[h].w # 0 => hs[h].w # hs[g].w      \* no two handles reach one worker
(* a worker that waits or checks ends once asked, whatever came first *)
AskedEnds == \A i \in 1..Len(ws) : ws[i].req /\ (ws[i].k \in {"wait", "poll"} \/ ws[i].rel) => ws[i].end
(* and none that only ends on request ends without *)
NoneUnasked == \A i \in 1..Len(ws) : (ws[i].end /\ ws[i].k \in {"wait", "poll", "late"} => ws[i].req) /\ (ws[i].thrown => ws[i].req)
(* only the step that asks through the handle owning it makes a request of a worker *)
OnlyOwn == [][\A i \in 1..Len(ws) : ws'[i].req # ws[i].req => \E h \in H : hs[h].w = i /\ h \in CanAsk]_vars
(* a handle lets go of a worker to be joined only when that has ended, was detached, or was passed on *)
HoldsOn == [][\A h \in H : hs[h].j /\ ~ws[hs[h].w].end =>
              \/ ws'[hs[h].w].end
              \/ \E g \in H : hs'[g].w = hs[h].w]_vars
==============================================================================
