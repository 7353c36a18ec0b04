------------------------------ MODULE CacheTrace ------------------------------
(***************************************************************************)
(* Is what a consumer received a behaviour of Cache?  A trace has the keys   *)
(* produced, in order, and what one consumer got: <<b, v, e>> is entry v     *)
(* received by a request made after at least b entries had been produced and *)
(* answered before more than e had.  (Consumers do not influence each other, *)
(* so each is judged on its own.)                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT TraceFile
VARIABLES tr, n, i      \* trace, entries produced so far, answers accounted for
vars == <<tr, n, i>>
Traces == JsonDeserialize(TraceFile)
Init == tr \in 1..Len(Traces) /\ n = 0 /\ i = 0
T == Traces[tr]
Pos == IF i = 0 THEN 0 ELSE T.got[i][2]
Live(j) == j <= n /\ \A m \in j + 1..n : T.keys[m] # T.keys[j]
Unread == {j \in Pos + 1..n : Live(j)}
Produce == n < Len(T.keys) /\ n' = n + 1 /\ UNCHANGED <<tr, i>>
Receive == /\ i < Len(T.got)
           /\ LET g == T.got[i + 1] IN
              /\ n >= g[1] /\ n <= g[3]
              /\ Unread # {} /\ g[2] = CHOOSE j \in Unread : \A m \in Unread : j <= m
           /\ i' = i + 1 /\ UNCHANGED <<tr, n>>
Next == Produce \/ Receive
Spec == Init /\ [][Next]_vars
(* reported once per trace that is explained to its end                      *)
Accepted == (i = Len(T.got) /\ n = Len(T.keys) /\ Pos = n) => PrintT("@@A" \o ToString(tr))
==============================================================================
