------------------------------- MODULE CacheList -------------------------------
(***************************************************************************)
(* The feed as a doubly linked list with unlinked nodes that consumers may   *)
(* still hold, and its refinement of Cache: a consumer holding an unlinked   *)
(* node follows links until it meets one that is in the list.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxNodes, Keys, Consumers
VARIABLES nodes,    \* sequence of [k, next, prev]; 0: none
          head, tail, map, iter, seen, wait
vars == <<nodes, head, tail, map, iter, seen, wait>>

PushBack(N, hd, tl, k) ==
  LET n == Len(N) + 1 IN
  [N |-> Append(IF tl = 0 THEN N ELSE [N EXCEPT ![tl].next = n], [k |-> k, next |-> 0, prev |-> tl]),
   hd |-> IF tl = 0 THEN n ELSE hd, tl |-> n]
(* the new node is linked before the obsolete one is taken out, so what is   *)
(* taken out is never the last one                                           *)
Unlink(s, o) ==
  LET N == s.N  p == N[o].prev  q == N[o].next
      N1 == IF p # 0 THEN [N EXCEPT ![p].next = q] ELSE N
      N2 == IF q # 0 THEN [N1 EXCEPT ![q].prev = p] ELSE N1 IN
  [N |-> [N2 EXCEPT ![o].prev = 0], hd |-> IF s.hd = o THEN q ELSE s.hd, tl |-> IF s.tl = o THEN p ELSE s.tl]
Add(k) ==
  LET s == PushBack(nodes, head, tail, k)
      t == IF map[k] # 0 THEN Unlink(s, map[k]) ELSE s IN
  /\ Len(nodes) < MaxNodes
  /\ nodes' = t.N /\ head' = t.hd /\ tail' = t.tl /\ map' = [map EXCEPT ![k] = Len(nodes) + 1]
  /\ wait' = {} /\ UNCHANGED <<iter, seen>>
RECURSIVE Truth(_)
Truth(i) == IF i = 0 \/ i = head \/ nodes[i].prev # 0 THEN i ELSE Truth(nodes[i].next)
Get(c) ==
  LET i == iter[c]  t == IF i = 0 THEN head ELSE Truth(i)
      n == IF i = 0 THEN head ELSE IF t # i THEN t ELSE nodes[i].next IN
  /\ c \notin wait
  /\ IF n = 0 THEN wait' = wait \cup {c} /\ UNCHANGED <<iter, seen>>
     ELSE iter' = [iter EXCEPT ![c] = n] /\ seen' = [seen EXCEPT ![c] = n] /\ UNCHANGED wait
  /\ UNCHANGED <<nodes, head, tail, map>>
Escape == wait # {} /\ wait' = {} /\ UNCHANGED <<nodes, head, tail, map, iter, seen>>
Init == nodes = <<>> /\ head = 0 /\ tail = 0 /\ map = [k \in Keys |-> 0] /\ iter = [c \in Consumers |-> 0]
        /\ seen = [c \in Consumers |-> 0] /\ wait = {}
Next == (\E k \in Keys : Add(k)) \/ (\E c \in Consumers : Get(c)) \/ Escape
Spec == Init /\ [][Next]_vars

Listed == LET RECURSIVE L(_) L(i) == IF i = 0 THEN {} ELSE {i} \cup L(nodes[i].next) IN L(head)
ListOK == /\ Listed = {map[k] : k \in Keys} \ {0}
          /\ (head = 0 <=> tail = 0) /\ (tail # 0 => nodes[tail].next = 0)
          /\ \A i \in Listed : i # head => nodes[nodes[i].prev].next = i

(* the same as the abstract feed sees it *)
ALog == [i \in 1..Len(nodes) |-> [k |-> nodes[i].k, live |-> map[nodes[i].k] = i]]
Unread(c) == {i \in 1..Len(ALog) : ALog[i].live /\ i > seen[c]}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
AAdd == \E k \in Keys : /\ ALog' = Append([i \in 1..Len(ALog) |-> IF ALog[i].k = k THEN [ALog[i] EXCEPT !.live = FALSE] ELSE ALog[i]], [k |-> k, live |-> TRUE])
                        /\ wait' = {} /\ UNCHANGED seen
AGet == \E c \in Consumers \ wait :
  /\ ALog' = ALog
  /\ IF Unread(c) = {} THEN wait' = wait \cup {c} /\ UNCHANGED seen
     ELSE UNCHANGED wait /\ seen' = [seen EXCEPT ![c] = Least(Unread(c))]
AEscape == wait # {} /\ wait' = {} /\ ALog' = ALog /\ UNCHANGED seen
Refines == [][AAdd \/ AGet \/ AEscape]_vars
==============================================================================
