--------------------------------- MODULE Nets ---------------------------------
(***************************************************************************)
(* Layers, models and trained networks over their whole life: what their     *)
(* variables hold after initialisation, assignment, training, copying,       *)
(* moving, saving and loading, what their outputs are, and when an agent     *)
(* stores, trains and explores.                                              *)
(*                                                                           *)
(* Contents are matrices (batch by features, row by row).  The state says    *)
(* WHICH value every variable holds (an id); how a value comes about is      *)
(* logged as a definition over earlier values, which a conformance harness   *)
(* evaluates.                                                                 *)
(*                                                                           *)
(* model: k kind; kd kind of the object when its contents were moved away;   *)
(*        ar architecture; sc scope; w values of its variables (0: none yet);*)
(*        t the same of the target network; up optimizer; mo accumulators    *)
(*        (0: fresh); ig variables left out of training; bt, bi size of      *)
(*        training and evaluation batch (0: not fixed yet); q agent          *)
(***************************************************************************)
EXTENDS Enc, FiniteSets
CONSTANTS MaxSteps, NM, NO, Archs, Kinds, NF, Batches, Updaters, Params, First,
          Long        \* machines are trained from nothing with many alternations, many times over
VARIABLES md, ou, fl, nv, hist, step
vars == <<md, ou, fl, nv, hist, step>>

Slots == 1..NM
NoCd == [b |-> 0, k |-> 0, r |-> <<0, 1>>]
NoQ == [p |-> 0, mem |-> <<>>, cs |-> 0, ct |-> 0, ca |-> 0, it |-> 0]
Blank == [k |-> "", kd |-> "", ar |-> 0, sc |-> "", w |-> <<>>, t |-> <<>>, up |-> 0, mo |-> <<>>, ig |-> {}, bt |-> 0, bi |-> 0, q |-> NoQ]
Live == {i \in Slots : md[i].k \notin {"", "husk"}}
Husks == {i \in Slots : md[i].k = "husk"}
Free == Slots \ (Live \cup Husks)
OfK(ks) == {i \in Live : md[i].k \in ks}
Nets == {"mlp", "gd", "dq"}
Files == 1..NF
Ready(M) == \A n \in 1..Len(M.w) : M.w[n] # 0
Half == -8..8

(*------------------------------ architectures -----------------------------*)
(* n inputs; l: the layers' sizes and activations                            *)
RECURSIVE LayerDims(_, _, _)
LayerDims(ls, k, n) == IF k > Len(ls) THEN <<>> ELSE <<<<ls[k].o, n>>, <<ls[k].o>>>> \o LayerDims(ls, k + 1, ls[k].o)
RECURSIVE RbmDims(_, _, _)
RbmDims(ls, k, n) == IF k >= Len(ls) THEN <<<<ls[k].o, n>>, <<ls[k].o>>>>
                     ELSE <<<<ls[k].o, n>>, <<ls[k].o>>, <<n>>>> \o RbmDims(ls, k + 1, ls[k].o)
Dims(k, ar) == LET A == Archs[ar] IN
  CASE k \in Nets -> LayerDims(A.l, 1, A.n)
    [] k = "rbm" -> <<<<A.l[1].o, A.n>>, <<A.l[1].o>>, <<A.n>>>>
    [] k = "db" -> RbmDims(A.l, 1, A.n)
    \* one layer fed by two inputs
    [] k = "fc" -> <<<<A.l[1].o, A.n>>, <<A.l[1].o>>, <<A.l[1].o, A.l[Len(A.l)].o>>, <<A.l[1].o>>>>
    [] k = "conv" -> <<<<A.l[1].o, A.n, 1, 2>>, <<2>>>>
NIn(M) == Archs[M.ar].n
NOut(M) == Archs[M.ar].l[Len(Archs[M.ar].l)].o
(* square of the bound initial weights are drawn within; 0: zeros            *)
Bound(k, ar, n) == LET d == Dims(k, ar)[n] IN
  IF Len(d) = 1 THEN <<0, 1>>
  ELSE IF k = "conv" THEN <<1, d[1] * d[2] * d[3]>>
  ELSE IF k = "rbm" \/ (k = "db" /\ n < Len(Dims(k, ar)) - 1) THEN <<96, d[1] + d[2]>>
  ELSE <<1, d[2]>>

(*-------------------------------- definitions ------------------------------*)
S0 == [n |-> nv, d |-> <<>>]
Put(s, o, a, p) == [n |-> s.n + 1, d |-> Append(s.d, [o |-> o, a |-> a, p |-> p])]
Lit(s, r, c, d) == Put(s, "lit", <<>>, [r |-> r, c |-> c, d |-> d])
Rand(n) == TLCEval([i \in 1..n |-> IF Mode = "one" THEN RandomElement(Half) ELSE i])
RandU(n) == TLCEval([i \in 1..n |-> IF Mode = "one" THEN RandomElement(0..4) ELSE i % 5])
RandB(n) == TLCEval([i \in 1..n |-> IF Mode = "one" THEN RandomElement({0, 4}) ELSE 4 * (i % 2)])

RECURSIVE Fw(_, _, _, _, _, _)
Fw(s, ls, w, k, x, acts) ==
  IF k > Len(ls) THEN [s |-> s, a |-> acts] ELSE
  LET s1 == Put(s, "mm", <<x, w[2 * k - 1]>>, 0)
      s2 == Put(s1, "addrow", <<s1.n, w[2 * k]>>, 0)
      s3 == Put(s2, "act", <<s2.n>>, ls[k].f) IN
  Fw(s3, ls, w, k + 1, s3.n, Append(acts, s3.n))
Forward(s, ls, w, x) == Fw(s, ls, w, 1, x, <<x>>)

RECURSIVE Bk(_, _, _, _, _, _, _)
Bk(s, ls, w, k, acts, da, g) ==
  IF k = 0 THEN [s |-> s, g |-> g] ELSE
  LET s1 == Put(s, "dact", <<acts[k + 1], da>>, ls[k].f)
      s2 == Put(s1, "tmm", <<acts[k], s1.n>>, 0)
      s3 == Put(s2, "colsum", <<s1.n>>, 0)
      s4 == Put(s3, "mmt", <<s1.n, w[2 * k - 1]>>, 0) IN
  Bk(s4, ls, w, k - 1, acts, s4.n, <<s2.n, s3.n>> \o g)
Backward(s, ls, w, acts, da) == Bk(s, ls, w, Len(ls), acts, da, <<>>)

(* one step of the optimizer on every variable, from the same gradients      *)
RECURSIVE Up(_, _, _, _, _, _, _, _)
Up(s, u, w, mo, ig, g, k, r) ==
  IF k > Len(w) THEN [s |-> s, w |-> r[1], mo |-> r[2]] ELSE
  IF k \in ig THEN Up(s, u, w, mo, ig, g, k + 1, <<Append(r[1], w[k]), Append(r[2], mo[k])>>) ELSE
  IF u.k = "vgb" THEN LET s1 == Put(s, "axpy", <<w[k], g[k]>>, <<-u.r[1], u.r[2]>>) IN
    Up(s1, u, w, mo, ig, g, k + 1, <<Append(r[1], s1.n), Append(r[2], 0)>>)
  ELSE LET s0 == IF mo[k] = 0 THEN Put(s, "ones", <<g[k]>>, 0) ELSE s
           m0 == IF mo[k] = 0 THEN s0.n ELSE mo[k]
           s1 == Put(s0, "rmsm", <<m0, g[k]>>, u.d)
           s2 == Put(s1, "rmsw", <<w[k], g[k], s1.n>>, u.r) IN
    Up(s2, u, w, mo, ig, g, k + 1, <<Append(r[1], s2.n), Append(r[2], s1.n)>>)
Step(s, u, w, mo, ig, g) == Up(s, u, w, mo, ig, g, 1, <<<<>>, <<>>>>)
RECURSIVE Each(_, _, _, _, _)
Each(s, o, a, p, r) == IF Len(r) = Len(a) THEN [s |-> s, r |-> r] ELSE
  LET s1 == Put(s, o, a[Len(r) + 1], p) IN Each(s1, o, a, p, Append(r, s1.n))

(* what a model computes from an input                                       *)
RbmUp(s, w, x) == LET s1 == Put(s, "mm", <<x, w[1]>>, 0)  s2 == Put(s1, "addrow", <<s1.n, w[2]>>, 0) IN Put(s2, "act", <<s2.n>>, "sig")
RbmDown(s, w, x) == LET s1 == Put(s, "mmt", <<x, w[1]>>, 0)  s2 == Put(s1, "addrow", <<s1.n, w[3]>>, 0) IN Put(s2, "act", <<s2.n>>, "sig")
RECURSIVE DbUp(_, _, _)
DbUp(s, w, x) == IF Len(w) = 2 THEN LET s1 == Put(s, "mm", <<x, w[1]>>, 0)  s2 == Put(s1, "addrow", <<s1.n, w[2]>>, 0) IN Put(s2, "softmax", <<s2.n>>, 0)
                 ELSE LET s1 == RbmUp(s, w, x) IN DbUp(s1, SubSeq(w, 4, Len(w)), s1.n)
Output(s, M, way, x) ==
  CASE M.k \in Nets -> Forward(s, Archs[M.ar].l, M.w, x[1]).s
    [] M.k = "rbm" /\ way = "up" -> RbmUp(s, M.w, x[1])
    [] M.k = "rbm" /\ way = "down" -> RbmDown(s, M.w, x[1])
    [] M.k = "db" -> DbUp(s, M.w, x[1])
    [] M.k = "fc" -> LET s1 == Put(s, "mm", <<x[1], M.w[1]>>, 0)  s2 == Put(s1, "addrow", <<s1.n, M.w[2]>>, 0)
                         s3 == Put(s2, "mm", <<x[2], M.w[3]>>, 0)  s4 == Put(s3, "addrow", <<s3.n, M.w[4]>>, 0) IN Put(s4, "axpy", <<s2.n, s4.n>>, <<1, 1>>)
(* columns of the inputs a model is fed with                                 *)
InDims(M, way) == CASE M.k = "fc" -> <<NIn(M), NOut(M)>> [] M.k = "rbm" /\ way = "down" -> <<Archs[M.ar].l[1].o>> [] OTHER -> <<NIn(M)>>

(*--------------------------------- steps -----------------------------------*)
Tick == step' = step + 1
Skip == UNCHANGED <<md, ou, fl, nv, hist>> /\ Tick
Ob(M) == [k |-> M.k, w |-> M.w, t |-> M.t]
Obs(mm) == [i \in Slots |-> Ob(mm[i])]
(* the whole story is kept where behaviours are replayed; else the last step  *)
Log(e, s, mm) == hist' = IF Mode = "one" THEN Append(hist, e @@ [def |-> s.d, st |-> Obs(mm)]) ELSE <<e @@ [at |-> step]>>
Do(e, s, mm, oo, ff) == md' = mm /\ ou' = oo /\ fl' = ff /\ nv' = s.n /\ Tick /\ Log(e, s, mm)
Zeros(n) == [k \in 1..n |-> 0]
New(k, ar, sc) == [Blank EXCEPT !.k = k, !.ar = ar, !.sc = sc, !.w = Zeros(Len(Dims(k, ar)))]
Name(i) == "m" \o ToString(i) \o "s" \o ToString(step)
Lost(oo, i) == [j \in 1..NO |-> IF oo[j].m = i THEN [oo[j] EXCEPT !.m = -1] ELSE oo[j]]
Goes(oo, j, i) == [n \in 1..NO |-> IF oo[n].m = j THEN [oo[n] EXCEPT !.m = i] ELSE oo[n]]
Suits(k, ar) == LET A == Archs[ar] IN CASE k = "rbm" -> Len(A.l) = 1 [] k \in Nets \cup {"db"} -> TRUE [] OTHER -> Len(A.l) \in {1, 2}
Make(k) == IF Free = {} THEN Skip ELSE
  \E i \in Pick(Free) : \E ar \in Pick({a \in 1..Len(Archs) : Suits(k, a)}) :
    Do([a |-> "new", m |-> i, k |-> k, n |-> Archs[ar].n, l |-> Archs[ar].l, sc |-> Name(i), dims |-> Dims(k, ar)], S0,
       [md EXCEPT ![i] = New(k, ar, Name(i))], ou, fl)
(* a network owns the model it is given                                      *)
MakeGd == LET C == OfK({"mlp"}) IN IF C = {} \/ Free = {} THEN Skip ELSE
  \E j \in Pick(C) : \E i \in Pick(Free) : \E u \in Pick(1..Len(Updaters)) : \E ig \in Pick({{}, {1}, {2}, {1, 2}, 1..Len(md[j].w) - 1}) :
    LET M == [md[j] EXCEPT !.k = "gd", !.sc = Name(i), !.up = u, !.mo = Zeros(Len(md[j].w)), !.ig = ig] IN
    Do([a |-> "newgd", m |-> i, j |-> j, u |-> Updaters[u], ig |-> ig, sc |-> Name(i)], S0, [md EXCEPT ![i] = M, ![j] = Blank], Goes(ou, j, i), fl)
MakeDq == LET C == OfK({"mlp"}) IN IF C = {} \/ Free = {} THEN Skip ELSE
  \E j \in Pick(C) : \E i \in Pick(Free) : \E u \in Pick(1..Len(Updaters)) : \E p \in Pick(1..Len(Params)) :
    LET M == [md[j] EXCEPT !.k = "dq", !.sc = Name(i), !.up = u, !.mo = Zeros(Len(md[j].w)), !.t = md[j].w, !.q = [NoQ EXCEPT !.p = p]] IN
    Do([a |-> "newdq", m |-> i, j |-> j, u |-> Updaters[u], p |-> Params[p], sc |-> Name(i)], S0, [md EXCEPT ![i] = M, ![j] = Blank], Goes(ou, j, i), fl)

(* every variable drawn anew: weights within their bound, biases zero        *)
RECURSIVE Draw(_, _, _, _, _)
Draw(s, i, M, grp, r) == IF Len(r) = Len(M.w) THEN [s |-> s, r |-> r] ELSE
  LET s1 == Put(s, "read", <<i, grp, Len(r) + 1>>, [b |-> Bound(IF M.k \in Nets THEN "mlp" ELSE M.k, M.ar, Len(r) + 1), s |-> Dims(M.k, M.ar)[Len(r) + 1]]) IN
  Draw(s1, i, M, grp, Append(r, s1.n))

(* files hold values under the name of a scope and a position                *)
Lab(sc, n) == <<sc, n>>
Holds(f, sc, M) == f # 0 /\ fl[f].k = "map" /\ \A n \in 1..Len(M.w) :
   Lab(sc, n) \in DOMAIN fl[f].m /\ fl[f].m[Lab(sc, n)].s = Dims(M.k, M.ar)[n]
Found(f, sc, M) == [n \in 1..Len(M.w) |-> fl[f].m[Lab(sc, n)].v]
Scopes(f) == IF f # 0 /\ fl[f].k = "map" THEN {l[1] : l \in DOMAIN fl[f].m} ELSE {}
Saves == {"mlp", "gd", "dq", "rbm", "db"}
InitM == LET C == OfK(Saves) IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E f \in Pick(0..NF) :
  LET plain == IF f = 0 THEN {} ELSE {s \in Scopes(f) : md[i].k = "dq" => ("target_" \o s) \in Scopes(f)} IN
  \E own0 \in Pick({TRUE, FALSE}) : \E sc0 \in Pick(({md[i].sc} \cup plain \cup {"a"}) \ {"?"}) :
    LET own == own0 /\ md[i].sc # "?"
        sc == IF own THEN md[i].sc ELSE sc0
        M == md[i]
        ts == "target_" \o sc
        a == IF Holds(f, sc, M) THEN [s |-> S0, r |-> Found(f, sc, M)] ELSE Draw(S0, i, M, 0, <<>>)
        b == IF M.k # "dq" THEN [s |-> a.s, r |-> M.t] ELSE IF Holds(f, ts, M) THEN [s |-> a.s, r |-> Found(f, ts, M)] ELSE Draw(a.s, i, M, 1, <<>>) IN
    Do([a |-> "init", m |-> i, f |-> f, sc |-> IF own THEN "" ELSE sc, full |-> Holds(f, sc, M)], b.s, [md EXCEPT ![i].w = a.r, ![i].t = b.r], ou, fl)
Puts(m0, sc, M, w) == LET has == {n \in 1..Len(w) : w[n] # 0} IN
  [l \in DOMAIN m0 \cup {Lab(sc, n) : n \in has} |-> IF l[1] = sc /\ l[2] \in has THEN [v |-> w[l[2]], s |-> Dims(M.k, M.ar)[l[2]]] ELSE m0[l]]
Nothing == [l \in {} |-> 0]
FileList(F) == IF F.k # "map" THEN <<>> ELSE
  LET ls == DOMAIN F.m
      RECURSIVE L(_)
      L(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<[l |-> x[1] \o ":" \o ToString(x[2] - 1), v |-> F.m[x].v, s |-> F.m[x].s]>> \o L(S \ {x}) IN L(ls)
Save == LET C == OfK(Saves) IN IF C = {} \/ NF = 0 THEN Skip ELSE
  \E i \in Pick(C) : \E f \in Pick(Files) : \E own0 \in Pick({TRUE, FALSE}) : \E sc0 \in Pick({"a", "b"} \cup Scopes(f)) :
    LET M == md[i]  own == own0 /\ M.sc # "?"  sc == IF own THEN M.sc ELSE sc0
        ok == fl[f].k \in {"none", "map"}
        m0 == IF fl[f].k = "map" THEN fl[f].m ELSE Nothing
        m1 == Puts(m0, sc, M, M.w)
        m2 == IF M.k = "dq" THEN Puts(m1, "target_" \o sc, M, M.t) ELSE m1
        F == IF ok THEN [k |-> "map", m |-> m2] ELSE fl[f] IN
    Do([a |-> "save", m |-> i, f |-> f, sc |-> IF own THEN "" ELSE sc, ok |-> ok, fk |-> F.k, file |-> FileList(F)], S0, md, ou, [fl EXCEPT ![f] = F])
(* something else happens to a file                                          *)
Harm == IF NF = 0 THEN Skip ELSE
  \E f \in Pick(Files) : \E h \in Pick({"rm", "junk", "cut", "empty", "gone"}) :
    IF (h = "cut" /\ (fl[f].k # "map" \/ fl[f].m = Nothing)) \/ (fl[f].k = "gone") THEN Skip ELSE
    Do([a |-> "harm", m |-> 0, f |-> f, h |-> h], S0, md, ou,
       [fl EXCEPT ![f] = CASE h = "rm" -> [k |-> "none", m |-> Nothing] [] h = "empty" -> [k |-> "map", m |-> Nothing]
                           [] h = "gone" -> [k |-> "gone", m |-> Nothing] [] OTHER -> [k |-> "bad", m |-> Nothing]])
(* contents given by hand                                                    *)
Prod(d) == LET RECURSIVE P(_) P(k) == IF k > Len(d) THEN 1 ELSE d[k] * P(k + 1) IN P(1)
SetW == LET C == {i \in OfK({"mlp", "rbm", "db", "fc", "conv"}) : TRUE} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E n \in Pick(1..Len(md[i].w)) :
    LET d == Dims(md[i].k, md[i].ar)[n]  s == Lit(S0, IF Len(d) = 1 THEN 1 ELSE Prod(d) \div d[1], d[1], Rand(Prod(d))) IN
    IF md[i].w[n] = 0 /\ md[i].k \in Saves THEN Skip ELSE
    Do([a |-> "setw", m |-> i, n |-> n, s |-> d, v |-> s.n], s, [md EXCEPT ![i].w[n] = s.n], ou, fl)

(* weights so large that every unit is certain                               *)
SetBig == LET C == {i \in OfK({"rbm", "db"}) : Ready(md[i])} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E n \in Pick({n \in 1..Len(md[i].w) : md[i].k = "rbm" \/ n < Len(md[i].w) - 1}) :
    LET d == Dims(md[i].k, md[i].ar)[n]
        s == Lit(S0, IF Len(d) = 1 THEN 1 ELSE Prod(d) \div d[1], d[1], TLCEval([q \in 1..Prod(d) |-> (IF Mode = "one" THEN RandomElement({-3, -1, 1, 3}) ELSE q) * 100])) IN
    Do([a |-> "setw", m |-> i, n |-> n, s |-> d, v |-> s.n], s, [md EXCEPT ![i].w[n] = s.n], ou, fl)

(*-------------------------------- outputs ----------------------------------*)
Out == LET C == {i \in OfK({"mlp", "rbm", "db", "fc"}) : Ready(md[i])} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E j \in Pick(1..NO) : \E b \in Pick(Batches) : \E way \in Pick(IF md[i].k = "rbm" THEN {"up", "down"} ELSE {"up"}) :
    LET ds == InDims(md[i], way)
        s1 == Lit(S0, b, ds[1], Rand(b * ds[1]))
        s2 == IF Len(ds) = 2 THEN Lit(s1, b, ds[2], Rand(b * ds[2])) ELSE s1
        x == IF Len(ds) = 2 THEN <<s1.n, s2.n>> ELSE <<s1.n>>
        s3 == Output(s2, md[i], way, x) IN
    Do([a |-> "out", m |-> i, o |-> j, x |-> x, way |-> way, v |-> s3.n], s3, md, [ou EXCEPT ![j] = [m |-> i, x |-> x, way |-> way, c |-> NoCd]], fl)
Look == LET C == {j \in 1..NO : ou[j].m # 0 /\ ou[j].way \notin {"cd", "tune"} /\ (ou[j].m > 0 => Ready(md[ou[j].m]))} IN IF C = {} THEN Skip ELSE
  \E j \in Pick(C) :
    LET o == ou[j]  s == IF o.m > 0 THEN Output(S0, md[o.m], o.way, o.x) ELSE S0 IN
    Do([a |-> "look", m |-> 0, o |-> j, gone |-> o.m < 0, v |-> s.n], s, md, ou, fl)
(* what a network answers                                                    *)
Run == LET C == {i \in OfK({"gd", "dq"}) : Ready(md[i])} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E b0 \in Pick(Batches) :
    LET M == md[i]  b == IF M.k = "dq" THEN 1 ELSE IF M.bi # 0 THEN M.bi ELSE b0
        s1 == Lit(S0, b, NIn(M), Rand(b * NIn(M)))
        s2 == Output(s1, M, "up", <<s1.n>>) IN
    Do([a |-> "run", m |-> i, x |-> s1.n, v |-> s2.n], s2, [md EXCEPT ![i].bi = IF M.k = "gd" THEN b ELSE 0], ou, fl)

(*-------------------------------- training ---------------------------------*)
TrainOf(M, b) ==
    LET ls == Archs[M.ar].l
        s1 == Lit(S0, b, NIn(M), Rand(b * NIn(M)))
        s2 == Lit(s1, b, NOut(M), Rand(b * NOut(M)))
        f == Forward(s2, ls, M.w, s1.n)
        s3 == Put(f.s, "axpy", <<f.a[Len(f.a)], s2.n>>, <<-1, 1>>)
        s4 == Put(s3, "scale", <<s3.n>>, <<2, 1>>)
        g == Backward(s4, ls, M.w, f.a, s4.n)
        r == Step(g.s, Updaters[M.up], M.w, M.mo, M.ig, g.g) IN
    [s |-> r.s, M |-> [M EXCEPT !.w = r.w, !.mo = r.mo, !.bt = b], x |-> s1.n, y |-> s2.n]
Train == LET C == {i \in OfK({"gd"}) : Ready(md[i])} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E b0 \in Pick(Batches) :
  \E r \in {TrainOf(md[i], IF md[i].bt # 0 THEN md[i].bt ELSE b0)} :
    Do([a |-> "train", m |-> i, x |-> r.x, y |-> r.y], r.s, [md EXCEPT ![i] = r.M], ou, fl)

(*--------------------------- contrastive divergence -------------------------*)
(* weights under which the chain drifts: what follows from a sampled unit is   *)
(* far from what follows from how likely it is                                *)
SetMid(n) == LET C == {i \in OfK({"rbm"}) : Ready(md[i])} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) :
    LET d == Dims(md[i].k, md[i].ar)[n]
        s == Lit(S0, IF Len(d) = 1 THEN 1 ELSE Prod(d) \div d[1], d[1], TLCEval([q \in 1..Prod(d) |->
               CASE n = 1 -> (IF Mode = "one" THEN RandomElement({64, 64, 48, 0}) ELSE 64) [] n = 2 -> 0 [] OTHER -> -48])) IN
    Do([a |-> "setw", m |-> i, n |-> n, s |-> d, v |-> s.n], s, [md EXCEPT ![i].w[n] = s.n], ou, fl)
(* how a machine (the machines of a deep net) is trained is set up once; a    *)
(* persistent chain keeps hidden units of its own                            *)
Machines == {i \in OfK({"rbm", "db"}) : Ready(md[i]) /\ Len(md[i].w) > 2}
SetCd == IF Machines = {} THEN Skip ELSE
  \E i \in Pick(Machines) : \E j \in Pick(1..NO) : \E b \in Pick(Batches) : \E k \in Pick(CASE Long -> {4, 6} [] OTHER -> {1, 2, 3}) : \E r \in Pick(IF Long THEN {<<1, 100>>} ELSE {<<1, 2>>, <<1, 10>>}) :
  \E p \in Pick(IF md[i].k = "rbm" THEN {TRUE, FALSE} ELSE {FALSE}) :
    LET s == IF p THEN Lit(S0, b, NOut(md[i]), RandB(b * NOut(md[i]))) ELSE S0 IN
    Do([a |-> "setcd", m |-> i, o |-> j, b |-> b, k |-> k, r |-> r, p |-> IF p THEN s.n ELSE 0], s, md,
       [ou EXCEPT ![j] = [m |-> i, x |-> IF p THEN <<s.n>> ELSE <<>>, way |-> "cd", c |-> [b |-> b, k |-> k, r |-> r]]], fl)
RECURSIVE Ups(_, _, _, _)
Ups(s, w, q, x) == IF q = 0 THEN [s |-> s, x |-> x] ELSE LET s1 == RbmUp(s, w, x) IN Ups(s1, SubSeq(w, 4, Len(w)), q - 1, s1.n)
(* one step of layer q: what it is given against what it makes up itself      *)
CdStep(s, o, w, q, x, pid, j) ==
    LET v0 == Ups(s, w, q - 1, x)
        m == SubSeq(w, 3 * q - 2, 3 * q)
        h0 == RbmUp(v0.s, m, v0.x)
        c == IF pid = 0 THEN Put(h0, "chain", <<v0.x, m[1], m[2], m[3]>>, [k |-> o.c.k, h |-> FALSE])
             ELSE Put(h0, "chain", <<pid, m[1], m[2], m[3]>>, [k |-> o.c.k, h |-> TRUE])
        hk == RbmUp(c, m, c.n)
        u == <<o.c.r[1], o.c.r[2] * o.c.b>>
        a1 == Put(hk, "tmm", <<v0.x, h0.n>>, 0)  a2 == Put(a1, "tmm", <<c.n, hk.n>>, 0)  a3 == Put(a2, "axpy", <<a1.n, a2.n>>, <<-1, 1>>)
        a4 == Put(a3, "axpy", <<m[1], a3.n>>, u)
        b1 == Put(a4, "axpy", <<h0.n, hk.n>>, <<-1, 1>>)  b2 == Put(b1, "colsum", <<b1.n>>, 0)  b3 == Put(b2, "axpy", <<m[2], b2.n>>, u)
        d1 == Put(b3, "axpy", <<v0.x, c.n>>, <<-1, 1>>)  d2 == Put(d1, "colsum", <<d1.n>>, 0)  d3 == Put(d2, "axpy", <<m[3], d2.n>>, u)
        f == IF pid = 0 THEN d3 ELSE Put(d3, "bits", <<j>>, 0) IN
    [s |-> f, w |-> [n \in 1..Len(w) |-> IF n = 3 * q - 2 THEN a4.n ELSE IF n = 3 * q - 1 THEN b3.n ELSE IF n = 3 * q THEN d3.n ELSE w[n]],
     pid |-> IF pid = 0 THEN 0 ELSE f.n, v |-> c.n]
RECURSIVE CdSteps(_, _, _, _, _, _, _, _)
CdSteps(s, o, w, q, xs, pid, j, r) == IF xs = <<>> THEN [s |-> s, w |-> w, pid |-> pid, r |-> r] ELSE
  LET t == CdStep(s, o, w, q, xs[1], pid, j) IN
  CdSteps(t.s, o, t.w, q, Tail(xs), t.pid, j, Append(r, [x |-> xs[1], v |-> t.v, w |-> t.w, e |-> t.s.n]))
RECURSIVE Lits(_, _, _, _)
Lits(s, r, c, n) == IF n = 0 THEN s ELSE Lits(Lit(s, r, c, IF Long THEN [i \in 1..r * c |-> 0] ELSE RandU(r * c)), r, c, n - 1)
Cd == LET C == {j \in 1..NO : ou[j].m > 0 /\ ou[j].way = "cd" /\ Ready(md[ou[j].m])} IN IF C = {} THEN Skip ELSE
  \E j \in Pick(C) :
  LET o == ou[j]  M == md[o.m] IN
  \E q \in Pick(1..(Len(M.w) \div 3)) : \E n \in Pick(CASE Long -> {32} [] o.c.b = 1 /\ Mode = "one" -> {1, 2, 16} [] OTHER -> {1, 2}) :
  \E r \in {CdSteps(Lits(S0, o.c.b, NIn(M), n), o, M.w, q, [k \in 1..n |-> nv + k], IF o.x = <<>> THEN 0 ELSE o.x[1], j, <<>>)} :
    Do([a |-> "cd", m |-> o.m, o |-> j, q |-> q, c |-> o.c, r |-> r.r], r.s, [md EXCEPT ![o.m].w = r.w],
       [ou EXCEPT ![j].x = IF r.pid = 0 THEN <<>> ELSE <<r.pid>>], fl)
(* fine-tuning a deep net: every variable its output depends on moves at once  *)
(* by the rate times the derivative of the cost; the error is of its answer    *)
SetTune == LET C == {i \in OfK({"db"}) : Ready(md[i])} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E j \in Pick(1..NO) : \E b \in Pick(Batches) : \E r \in Pick({<<1, 4>>, <<1, 10>>, <<1, 100>>}) :
    Do([a |-> "settune", m |-> i, o |-> j, b |-> b, r |-> r], S0, md,
       [ou EXCEPT ![j] = [m |-> i, x |-> <<>>, way |-> "tune", c |-> [b |-> b, k |-> 0, r |-> r]]], fl)
RECURSIVE Tuned(_, _, _, _, _)
Tuned(s, w, k, r, q) == IF k > Len(w) THEN [s |-> s, w |-> q] ELSE
  IF k % 3 = 0 /\ k < Len(w) - 1 THEN Tuned(s, w, k + 1, r, Append(q, w[k]))
  ELSE LET s1 == Put(s, "tuned", <<w[k]>>, [n |-> k, r |-> r]) IN Tuned(s1, w, k + 1, r, Append(q, s1.n))
TuneOf(o, M) ==
    LET s1 == Lit(S0, o.c.b, NIn(M), Rand(o.c.b * NIn(M)))
        s2 == Lit(s1, o.c.b, NOut(M), Rand(o.c.b * NOut(M)))
        s3 == Output(s2, M, "up", <<s1.n>>)
        s4 == Put(s3, "axpy", <<s3.n, s2.n>>, <<-1, 1>>)
        s5 == Put(s4, "msq", <<s4.n>>, 0)
        t == Tuned(s5, M.w, 1, o.c.r, <<>>)
        f3 == Output(t.s, [M EXCEPT !.w = t.w], "up", <<s1.n>>)
        f4 == Put(f3, "axpy", <<f3.n, s2.n>>, <<-1, 1>>)
        f5 == Put(f4, "msq", <<f4.n>>, 0) IN
    [s |-> f5, w |-> t.w, x |-> s1.n, y |-> s2.n, e |-> s5.n, f |-> f5.n]
Tune == LET C == {j \in 1..NO : ou[j].m > 0 /\ ou[j].way = "tune" /\ Ready(md[ou[j].m])} IN IF C = {} THEN Skip ELSE
  \E j \in Pick(C) : \E r \in {TuneOf(ou[j], md[ou[j].m])} :
    Do([a |-> "tune", m |-> ou[j].m, o |-> j, x |-> r.x, y |-> r.y, e |-> r.e, f |-> r.f], r.s, [md EXCEPT ![ou[j].m].w = r.w], ou, fl)
(* what a machine makes of what it makes of an input: the other side is a      *)
(* sample, so that the answer is one of finitely many, each with its probability *)
Bits(n) == [k \in 1..(n * (2 ^ n)) |-> 4 * ((((k - 1) \div n) \div (2 ^ ((k - 1) % n))) % 2)]
Rec == LET C == {i \in OfK({"rbm"}) : Ready(md[i])} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E way \in Pick({"v", "h"}) :
    LET M == md[i]  m == Archs[M.ar].l[1].o
        nx == IF way = "v" THEN NIn(M) ELSE m  nh == IF way = "v" THEN m ELSE NIn(M)
        s1 == Lit(S0, 1, nx, RandU(nx))  s2 == Lit(s1, 2 ^ nh, nh, Bits(nh))
        s3 == IF way = "v" THEN RbmUp(s2, M.w, s1.n) ELSE RbmDown(s2, M.w, s1.n)
        s4 == IF way = "v" THEN RbmDown(s3, M.w, s2.n) ELSE RbmUp(s3, M.w, s2.n) IN
    Do([a |-> "rec", m |-> i, x |-> s1.n, c |-> s2.n, p |-> s3.n, v |-> s4.n, way |-> way], s4, md, ou, fl)

(*---------------------------------- agents ---------------------------------*)
P(M) == Params[M.q.p]
(* every so many calls are kept; when full the newest takes the first place  *)
Store == LET C == OfK({"dq"}) IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E last \in Pick({TRUE, FALSE, FALSE}) : \E a \in Pick(1..NOut(md[i])) : \E r \in Pick(IF Mode = "one" THEN Half ELSE {1}) :
  \E e \in {[o |-> Rand(NIn(md[i])), a |-> a - 1, r |-> r, n |-> IF last THEN <<>> ELSE Rand(NIn(md[i]))]} :
    LET M == md[i]  p == P(M)
        keep == M.q.cs % p.si = 0
        mem == IF ~keep THEN M.q.mem ELSE IF Len(M.q.mem) < p.mx THEN Append(M.q.mem, e) ELSE [M.q.mem EXCEPT ![1] = e] IN
    Do([a |-> "store", m |-> i, e |-> e], S0, [md EXCEPT ![i].q.mem = mem, ![i].q.cs = @ + 1], ou, fl)
RowOf(e, nin, nout) == [x |-> e.o, k |-> [n \in 1..nout |-> IF n = e.a + 1 THEN 1 ELSE 0], r |-> e.r,
                        nx |-> IF e.n = <<>> THEN Zeros(nin) ELSE e.n, nk |-> IF e.n = <<>> THEN 0 ELSE 1]
QTrainOf(M) ==
    LET p == P(M)
        ls == Archs[M.ar].l
        s1 == Put(S0, "row", <<>>, "x")  s2 == Put(s1, "row", <<>>, "k")  s3 == Put(s2, "row", <<>>, "r")
        s4 == Put(s3, "row", <<>>, "nx")  s5 == Put(s4, "row", <<>>, "nk")
        f == Forward(s5, ls, M.w, s1.n)
        out == f.a[Len(f.a)]
        n == Forward(f.s, ls, M.t, s4.n)
        t1 == Put(n.s, "rowmax", <<n.a[Len(n.a)]>>, 0)
        t2 == Put(t1, "mul", <<t1.n, s5.n>>, 0)
        t3 == Put(t2, "axpy", <<s3.n, t2.n>>, p.dr)          \* reward and discounted best answer
        t4 == Put(t3, "mul", <<out, s2.n>>, 0)
        t5 == Put(t4, "rowsum", <<t4.n>>, 0)                  \* answer for the action taken
        t6 == Put(t5, "axpy", <<t5.n, t3.n>>, <<-1, 1>>)
        t7 == Put(t6, "scale", <<t6.n>>, <<2, p.mb>>)
        t8 == Put(t7, "rowscale", <<s2.n, t7.n>>, 0)
        g == Backward(t8, ls, M.w, f.a, t8.n)
        c == Each(g.s, "clipn", [k \in 1..Len(g.g) |-> <<g.g[k]>>], <<5, 1>>, <<>>)
        r == Step(c.s, Updaters[M.up], M.w, M.mo, {}, c.r)
        d == Each(r.s, "axpy", [k \in 1..Len(M.t) |-> <<M.t[k], r.w[k]>>], <<-1, 1>>, <<>>)
        u == Each(d.s, "axpy", [k \in 1..Len(M.t) |-> <<M.t[k], d.r[k]>>], <<-p.tr[1], p.tr[2]>>, <<>>) IN
    [s |-> u.s, M |-> [M EXCEPT !.w = r.w, !.mo = r.mo, !.t = u.r, !.q.ct = @ + 1, !.q.it = @ + 1]]
QTrain == LET C == {i \in OfK({"dq"}) : Ready(md[i])} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) :
    LET M == md[i]  p == P(M)  due == M.q.ct % p.ti = 0  enough == Len(M.q.mem) >= p.mb
        rows == [n \in 1..Len(M.q.mem) |-> RowOf(M.q.mem[n], NIn(M), NOut(M))] IN
    IF due /\ ~enough THEN Do([a |-> "qtrain", m |-> i, will |-> FALSE, b |-> 0, rows |-> <<>>, it |-> M.q.it], S0, md, ou, fl)
    ELSE IF ~due THEN Do([a |-> "qtrain", m |-> i, will |-> FALSE, b |-> 0, rows |-> <<>>, it |-> M.q.it], S0, [md EXCEPT ![i].q.ct = @ + 1], ou, fl)
    ELSE \E r \in {QTrainOf(M)} :
         Do([a |-> "qtrain", m |-> i, will |-> TRUE, b |-> p.mb, rows |-> rows, it |-> M.q.it + 1], r.s, [md EXCEPT ![i] = r.M], ou, fl)
(* several actions on one observation: how likely each is a random one       *)
Eps(p, n) == IF n >= p.ep THEN p.rp ELSE <<p.ep * p.rp[2] - n * (p.rp[2] - p.rp[1]), p.ep * p.rp[2]>>
Acts == LET C == {i \in OfK({"dq"}) : Ready(md[i])} IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : \E k \in Pick({1, 3, 40}) :
    LET M == md[i]  p == P(M)
        s1 == Lit(S0, 1, NIn(M), Rand(NIn(M)))
        s2 == Output(s1, M, "up", <<s1.n>>) IN
    Do([a |-> "acts", m |-> i, x |-> s1.n, v |-> s2.n, eps |-> [n \in 1..k |-> Eps(p, M.q.ca + n)]], s2, [md EXCEPT ![i].q.ca = @ + k], ou, fl)

(*------------------------- copies, moves, deletion -------------------------*)
(* a move takes everything along.  Under which scope a copied network saves   *)
(* itself when it is not told is left open ("?"); a copy starts its            *)
(* accumulators anew; what an optimizer leaves out refers to the original's    *)
(* variables, so such networks are not copied                                *)
Copied(M, sc) == [M EXCEPT !.sc = IF M.k \in {"gd", "dq"} THEN "?" ELSE sc, !.mo = Zeros(Len(@))]
Copies == {"mlp", "gd", "dq", "rbm", "db", "fc", "conv"}
Clone == LET C == {i \in OfK(Copies) : md[i].ig = {}} IN IF C = {} \/ Free = {} THEN Skip ELSE
  \E j \in Pick(C) : \E i \in Pick(Free) :
    Do([a |-> "clone", m |-> i, j |-> j, sc |-> Name(i)], S0, [md EXCEPT ![i] = Copied(md[j], Name(i))], ou, fl)
Husk(k) == [Blank EXCEPT !.k = "husk", !.kd = k]
Move == LET C == OfK(Copies) IN IF C = {} \/ Free = {} THEN Skip ELSE
  \E j \in Pick(C) : \E i \in Pick(Free) :
    Do([a |-> "move", m |-> i, j |-> j, sc |-> md[j].sc], S0, [md EXCEPT ![i] = md[j], ![j] = Husk(md[j].k)], Goes(ou, j, i), fl)
Like(i, j) == i # j /\ md[j].k \in Copies /\ (md[i].k = md[j].k \/ (md[i].k = "husk" /\ md[i].kd = md[j].k))
Assign == LET C == {ij \in (Live \cup Husks) \X Live : Like(ij[1], ij[2]) /\ md[ij[2]].ig = {}} IN IF C = {} THEN Skip ELSE
  \E ij \in Pick(C) :
    Do([a |-> "assign", m |-> ij[1], j |-> ij[2]], S0, [md EXCEPT ![ij[1]] = Copied(md[ij[2]], md[ij[2]].sc)], Lost(ou, ij[1]), fl)
MAssign == LET C == {ij \in (Live \cup Husks) \X Live : Like(ij[1], ij[2])} IN IF C = {} THEN Skip ELSE
  \E ij \in Pick(C) :
    Do([a |-> "massign", m |-> ij[1], j |-> ij[2]], S0, [md EXCEPT ![ij[1]] = md[ij[2]], ![ij[2]] = Husk(md[ij[2]].k)],
       Goes(Lost(ou, ij[1]), ij[2], ij[1]), fl)
Self == IF Live = {} THEN Skip ELSE
  \E i \in Pick(Live) : Do([a |-> "self", m |-> i], S0, md, ou, fl)
Delete == LET C == Live \cup Husks IN IF C = {} THEN Skip ELSE
  \E i \in Pick(C) : Do([a |-> "delete", m |-> i], S0, [md EXCEPT ![i] = Blank], Lost(ou, i), fl)

Init == md = [i \in Slots |-> Blank] /\ ou = [j \in 1..NO |-> [m |-> 0, x |-> <<>>, way |-> "", c |-> NoCd]]
        /\ fl = [f \in 1..NF |-> [k |-> "none", m |-> Nothing]] /\ nv = 0 /\ hist = <<>> /\ step = 0
Act(k) ==
  CASE k \in {"mlp", "rbm", "db", "fc", "conv"} -> Make(k) [] k = "gd" -> MakeGd [] k = "dq" -> MakeDq
    [] k = "init" -> InitM [] k = "save" -> Save [] k = "harm" -> Harm [] k = "setw" -> SetW [] k = "setbig" -> SetBig
    [] k = "mid1" -> SetMid(1) [] k = "mid2" -> SetMid(2) [] k = "mid3" -> SetMid(3)
    [] k = "setcd" -> SetCd [] k = "cd" -> Cd [] k = "rec" -> Rec [] k = "settune" -> SetTune [] k = "tune" -> Tune
    [] k = "out" -> Out [] k = "look" -> Look [] k = "run" -> Run [] k = "train" -> Train
    [] k = "store" -> Store [] k = "qtrain" -> QTrain [] k = "acts" -> Acts
    [] k = "clone" -> Clone [] k = "move" -> Move [] k = "assign" -> Assign [] k = "massign" -> MAssign [] k = "self" -> Self
    [] k = "delete" -> Delete
Next == step < MaxSteps /\ \E k \in Pick(1..Len(Kinds)) : Act(IF step < Len(First) THEN First[step + 1] ELSE Kinds[k])
Spec == Init /\ [][Next]_vars
Export == step = MaxSteps => Emit("B", [ev |-> hist])

(*------------------------------ what must hold -----------------------------*)
TypeOK == \A i \in Live : LET M == md[i] IN
  /\ Len(M.w) = Len(Dims(M.k, M.ar)) /\ (M.k = "dq" => Len(M.t) = Len(M.w))
  /\ \A n \in 1..Len(M.w) : M.w[n] <= nv
(* an agent remembers no more than it may, and always the newest             *)
Bounded == \A i \in OfK({"dq"}) : LET q == md[i].q IN Len(q.mem) <= P(md[i]).mx
Newest == [][\A i \in Slots : md[i].k = "dq" /\ md'[i].k = "dq" /\ hist' # hist /\ hist'[Len(hist')].a = "store" /\ hist'[Len(hist')].m = i
              /\ md[i].q.cs % P(md[i]).si = 0 => \E n \in 1..Len(md'[i].q.mem) : md'[i].q.mem[n] = hist'[Len(hist')].e]_vars
(* values change only in the model a step is about                            *)
Apart == [][hist' # hist => LET e == hist'[Len(hist')] IN
             \A k \in Slots : (md'[k].w # md[k].w \/ md'[k].t # md[k].t) => k = e.m \/ (e.a \in {"move", "massign", "newgd", "newdq"} /\ k = e.j)]_vars
Learning == [][\A i \in Slots : hist' # hist /\ md'[i].k = "dq" /\ md[i].k = "dq" /\ md[i].w # md'[i].w
                => hist'[Len(hist')].a \in {"qtrain", "init", "assign", "massign"}]_vars
==============================================================================
