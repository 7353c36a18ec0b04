------------------------------- MODULE StopImpl -------------------------------
(***************************************************************************)
(* How a stop request reaches a worker that waits for it: a flag under a     *)
(* lock and a condition, in an object of its own that outlives both sides.   *)
(* Steps are as small as the machine's, so that the request can come between *)
(* the worker's look at the flag and its going to sleep.  Must refine: asked *)
(* leads to ended, nobody else is disturbed.                                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Workers, Locked         \* Locked = FALSE: the request is made without the lock
VARIABLES pc, flag, lock, asleep, ask
vars == <<pc, flag, lock, asleep, ask>>
Env == "env"
Init == /\ pc = [w \in Workers |-> "start"] /\ flag = [w \in Workers |-> FALSE]
        /\ lock = [w \in Workers |-> 0] /\ asleep = {} /\ ask = [w \in Workers |-> "idle"]
(* lock values: 0 free, 1 the worker's, 2 the requester's *)
Lock(w) == pc[w] = "start" /\ lock[w] = 0 /\ lock' = [lock EXCEPT ![w] = 1] /\ pc' = [pc EXCEPT ![w] = "look"] /\ UNCHANGED <<flag, asleep, ask>>
Look(w) == /\ pc[w] = "look" /\ pc' = [pc EXCEPT ![w] = IF flag[w] THEN "leave" ELSE "sleep"] /\ UNCHANGED <<flag, lock, asleep, ask>>
Sleep(w) == pc[w] = "sleep" /\ asleep' = asleep \cup {w} /\ lock' = [lock EXCEPT ![w] = 0] /\ pc' = [pc EXCEPT ![w] = "asleep"] /\ UNCHANGED <<flag, ask>>
Wake(w) == pc[w] = "asleep" /\ w \notin asleep /\ lock[w] = 0 /\ lock' = [lock EXCEPT ![w] = 1] /\ pc' = [pc EXCEPT ![w] = "look"] /\ UNCHANGED <<flag, asleep, ask>>
Leave(w) == pc[w] = "leave" /\ lock' = [lock EXCEPT ![w] = 0] /\ pc' = [pc EXCEPT ![w] = "end"] /\ UNCHANGED <<flag, asleep, ask>>
Spurious(w) == w \in asleep /\ asleep' = asleep \ {w} /\ UNCHANGED <<pc, flag, lock, ask>>
Begin(w) == /\ ask[w] = "idle" /\ (Locked => lock[w] = 0) /\ ask' = [ask EXCEPT ![w] = "set"]
            /\ lock' = (IF Locked THEN [lock EXCEPT ![w] = 2] ELSE lock) /\ UNCHANGED <<pc, flag, asleep>>
Set(w) == ask[w] = "set" /\ flag' = [flag EXCEPT ![w] = TRUE] /\ ask' = [ask EXCEPT ![w] = "notify"] /\ UNCHANGED <<pc, lock, asleep>>
Notify(w) == ask[w] = "notify" /\ asleep' = asleep \ {w} /\ ask' = [ask EXCEPT ![w] = "unlock"] /\ UNCHANGED <<pc, flag, lock>>
Unlock(w) == ask[w] = "unlock" /\ lock' = (IF Locked THEN [lock EXCEPT ![w] = 0] ELSE lock) /\ ask' = [ask EXCEPT ![w] = "done"] /\ UNCHANGED <<pc, flag, asleep>>
Act(w) == Lock(w) \/ Look(w) \/ Sleep(w) \/ Wake(w) \/ Leave(w)
Req(w) == Set(w) \/ Notify(w) \/ Unlock(w)
Next == \E w \in Workers : Act(w) \/ Req(w) \/ Begin(w) \/ Spurious(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : SF_vars(Lock(w)) /\ SF_vars(Wake(w)) /\ WF_vars(Look(w) \/ Sleep(w) \/ Leave(w)) /\ WF_vars(Req(w))
(* the request takes effect when the flag is set *)
AskedEnds == \A w \in Workers : flag[w] ~> pc[w] = "end"
NoneUnasked == \A w \in Workers : pc[w] \in {"leave", "end"} => flag[w]
(* refinement of Stop's "wait" workers: asked and ended only ever grow, ended only when asked *)
Refines == [][\A w \in Workers : /\ (pc[w] = "end" => pc'[w] = "end") /\ (flag[w] => flag'[w])
                                 /\ (pc'[w] = "end" /\ pc[w] # "end" => flag[w])]_vars
==============================================================================
