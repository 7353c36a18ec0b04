--------------------------------- MODULE Cache ---------------------------------
(***************************************************************************)
(* The key-value feed between one producer and several consumers.  An entry  *)
(* makes an older one with the same key obsolete.  A consumer reads the      *)
(* entries that are not obsolete in the order they were produced, each at    *)
(* most once; with nothing left to read it waits for the next entry (or to   *)
(* be let go) and then returns empty-handed.                                 *)
(***************************************************************************)
EXTENDS Enc, FiniteSets
CONSTANTS MaxSteps, Keys, Consumers, Kinds
VARIABLES log,      \* entries in order: [n (running number), k, live]
          pos,      \* consumer -> number of the entry it read last
          wait,     \* consumers waiting
          hist, step
vars == <<log, pos, wait, hist, step>>
view == <<log, pos, wait, step>>

Unread(c) == {i \in 1..Len(log) : log[i].live /\ i > pos[c]}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Tick == step' = step + 1
Log(e) == hist' = Append(hist, e)
Skip == UNCHANGED <<log, pos, wait, hist>> /\ Tick

(* the value of an entry is its running number; everybody waiting is woken   *)
Put == \E k \in Pick(Keys) :
  /\ log' = Append([i \in 1..Len(log) |-> IF log[i].k = k THEN [log[i] EXCEPT !.live = FALSE] ELSE log[i]], [k |-> k, live |-> TRUE])
  /\ wait' = {} /\ UNCHANGED pos /\ Tick
  /\ Log([a |-> "add", k |-> k, v |-> Len(log) + 1, wake |-> wait])
Get == IF Consumers \ wait = {} THEN Skip ELSE
  \E c \in Pick(Consumers \ wait) :
    IF Unread(c) = {} THEN
      /\ wait' = wait \cup {c} /\ UNCHANGED <<log, pos>> /\ Tick /\ Log([a |-> "get", c |-> c, k |-> 0, v |-> 0])
    ELSE LET i == Least(Unread(c)) IN
      /\ pos' = [pos EXCEPT ![c] = i] /\ UNCHANGED <<log, wait>> /\ Tick /\ Log([a |-> "get", c |-> c, k |-> log[i].k, v |-> i])
Escape == wait # {} /\ wait' = {} /\ UNCHANGED <<log, pos>> /\ Tick /\ Log([a |-> "escape", wake |-> wait])

Init == log = <<>> /\ pos = [c \in Consumers |-> 0] /\ wait = {} /\ hist = <<>> /\ step = 0
Act(k) == CASE k = "add" -> Put [] k = "get" -> Get [] k = "escape" -> IF wait = {} THEN Skip ELSE Escape
Next == step < MaxSteps /\ \E k \in Pick(1..Len(Kinds)) : Act(Kinds[k])
Spec == Init /\ [][Next]_vars
Export == step = MaxSteps => Emit("B", [nc |-> Cardinality(Consumers), ev |-> hist])

(*----------------------------- what must hold ------------------------------*)
(* somebody waits only when it has read everything that is not obsolete      *)
WaitOnlyWhenDone == \A c \in wait : Unread(c) = {}
(* one entry per key is not obsolete: the newest                             *)
NewestLives == \A i \in 1..Len(log) : log[i].live <=> \A j \in i + 1..Len(log) : log[j].k # log[i].k
(* nobody goes back, and nobody skips an entry that is not obsolete          *)
Forward == [][\A c \in Consumers : pos'[c] >= pos[c] /\
              \A i \in pos[c] + 1..pos'[c] - 1 : ~log[i].live]_vars
==============================================================================
