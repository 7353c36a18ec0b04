--------------------------------- MODULE Enc ---------------------------------
(* Compact JSON encodings of specification values for conformance traces.   *)
EXTENDS Tensors, TLC, Json
RECURSIVE EncS(_)
EncS(x) == CASE x.k = "r" -> (IF x.d = 1 THEN x.n ELSE <<x.n, x.d>>)
             [] x.k = "b" -> <<x.n, x.d>>
             [] x.k = "x" -> "x"
             [] x.k = "t" -> [f |-> x.f, a |-> [i \in 1..Len(x.a) |-> EncS(x.a[i])]]
EncT(t) == [s |-> t.s, d |-> [i \in 1..Len(t.d) |-> EncS(t.d[i])]]
Emit(tag, v) == PrintT("@@" \o tag \o ToJson(v))

(* How a choice is resolved: "all" explores every alternative (exhaustive   *)
(* model checking), "one" samples one (behaviour generation with -simulate) *)
CONSTANT Mode
Pick(S) == IF Mode = "one" THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
==============================================================================
