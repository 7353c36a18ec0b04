------------------------------- MODULE GraphMC -------------------------------
(* Exhaustive exploration of Graph.tla within small bounds.                  *)
EXTENDS Graph
MCShapes == {<<1>>}
MCKinds == <<"leaf", "un", "bin", "scal", "eval", "assignv", "delete", "drop", "clone", "freeze", "thaw", "notify", "prep", "run">>
MCView == view
==============================================================================
