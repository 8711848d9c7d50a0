----------------------------- MODULE LogNormal -----------------------------
(* Lognormal distributions: built from any pair of parameters, scaled,     *)
(* added and mixed, in any order; every figure they report follows from    *)
(* their log-mean and log-deviation.                                       *)
EXTENDS Terms, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES n,     \* distributions made so far; their log-parameters are <i>.mu and <i>.sg
          zero,  \* those whose mean is zero
          hist
vars == <<n, zero, hist>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
D(i) == Dist(Ref(ToString(i) \o ".mu"), Ref(ToString(i) \o ".sg"))

Kinds == {"mean_sdln", "mean_sd", "med_sdln", "mu_sdln"}
Locations == {<<1, 1000000>>, <<1, 250>>, <<3, 100>>, <<1, 3>>, <<1, 1>>, <<5, 2>>, <<17, 1>>, <<4000, 1>>, <<10000000, 1>>}
LogMeans == {<<-12, 1>>, <<-7, 2>>, <<-1, 1>>, <<0, 1>>, <<1, 4>>, <<3, 1>>, <<9, 1>>}
SdLns == {<<1, 100>>, <<1, 10>>, <<1, 4>>, <<1, 2>>, <<9, 10>>, <<2, 1>>}
Rels == {<<1, 100>>, <<1, 5>>, <<1, 1>>, <<3, 1>>, <<10, 1>>}   \* deviation over mean
Factors == {<<0, 1>>, <<1, 100>>, <<1, 3>>, <<1, 1>>, <<7, 2>>, <<40, 1>>}
Xs == <<<<0, 1>>, <<1, 2000000>>, <<1, 400>>, <<1, 30>>, <<7, 20>>, <<13, 10>>, <<19, 1>>, <<3500, 1>>, <<100000000, 1>>>>
Ps == <<<<1, 1000>>, <<1, 10>>, <<1, 2>>, <<3, 4>>, <<999, 1000>>>>

Init == n = 0 /\ zero = {} /\ hist = <<>>
(* What is checked of every distribution: its moments, the probabilities   *)
(* at Xs and the quantiles at Ps.                                          *)
Every1 == Dist(Ref("mu"), Ref("sg"))
Wants == [fn |-> <<MeanOf(Every1), Every1.mu, MedianOf(Every1), Every1.sg, SdOf(Every1)>>, mom |-> Moments(Every1), xs |-> [i \in 1..Len(Xs) |-> R(Xs[i])], ps |-> [i \in 1..Len(Ps) |-> R(Ps[i])],
          prob |-> [i \in 1..Len(Xs) |-> AtLeast(Every1, R(Xs[i]))] \o [i \in 1..Len(Xs) |-> AtMost(Every1, R(Xs[i]))]
                   \o [i \in 1..Len(Ps) |-> Quantile(Every1, R(Ps[i]))]]
ASSUME PrintT("##" \o ToJson(Wants))
Make(op, d, z) ==
  /\ n' = n + 1
  /\ zero' = IF z THEN zero \cup {n + 1} ELSE zero
  /\ hist' = Append(hist, [op |-> op, i |-> n + 1, mu |-> d.mu, sg |-> d.sg, zero |-> z])

Build(k) ==
  \E m \in Pick(IF k = "mu_sdln" THEN LogMeans ELSE Locations) : \E z \in Pick(1..12) :
  \E s \in Pick(IF k = "mean_sd" THEN Rels ELSE SdLns) :
    LET m1 == IF z = 1 /\ k # "mu_sdln" THEN <<0, 1>> ELSE m
        s1 == IF k = "mean_sd" THEN (IF m1[1] = 0 THEN s ELSE RMul(s, m1)) ELSE s
    IN Make([o |-> "build", k |-> k, a |-> R(m1), b |-> R(s1)], FromKind(k, R(m1), R(s1)), k # "mu_sdln" /\ m1[1] = 0)
Scale(how) ==
  \E i \in Pick(1..n) : \E f \in Pick(Factors) :
    Make([o |-> "scale", how |-> how, j |-> i, f |-> R(f)], Scaled(D(i), R(f)), f[1] = 0 \/ i \in zero)
Some == \E c \in Pick(1..4) : TRUE
AddUp == \E c \in Pick(1..5) : \E s \in {[j \in 1..c |-> RandomElement(1..n)]} :
    Make([o |-> "add", s |-> s], SumOf([j \in 1..c |-> D(s[j])]), \A j \in 1..c : s[j] \in zero)
(* weights are probabilities: they add up to at most one *)
Mix == \E c \in Pick(1..5) : \E s \in {[j \in 1..c |-> RandomElement(1..n)]} :
       \E w \in {[j \in 1..c |-> <<RandomElement(0..20), 20 * c>>]} :
    Make([o |-> "mix", s |-> s, w |-> [j \in 1..c |-> R(w[j])]], MixOf([j \in 1..c |-> D(s[j])], [j \in 1..c |-> R(w[j])]),
         \A j \in 1..c : s[j] \in zero \/ w[j][1] = 0)
(* as many weights as distributions, or nothing *)
Mismatch == \E c \in Pick(1..4) : \E e \in Pick(0..5) :
    /\ c # e
    /\ UNCHANGED <<n, zero>>
    /\ hist' = Append(hist, [op |-> [o |-> "mismatch", s |-> [j \in 1..c |-> RandomElement(1..n)], w |-> [j \in 1..e |-> Q(1, 10)]], i |-> 0])

(* A function of one argument whose values are distributed lognormally: a   *)
(* location a * x^b and a spread, given in any of six ways.                  *)
FnArgs == {<<1, 100>>, <<1, 4>>, <<1, 1>>, <<3, 1>>}
Fn == \E loc \in Pick({"mean", "median", "meanln"}) : \E sp \in Pick({"sdln", "sd"}) :
      \E a \in Pick(IF loc = "meanln" THEN {<<-5, 2>>, <<1, 2>>, <<2, 1>>} ELSE {<<1, 100>>, <<1, 2>>, <<3, 1>>}) : \E b \in Pick({0, 1, 2}) :
      \E s \in Pick({<<1, 50>>, <<1, 4>>, <<3, 2>>}) : \E xs \in {<<RandomElement(FnArgs), RandomElement(FnArgs)>>} :
    LET at(x) == Mul(R(a), R(IF b = 0 THEN <<1, 1>> ELSE IF b = 1 THEN x ELSE RMul(x, x)))
    IN /\ UNCHANGED <<n, zero>>
       /\ hist' = Append(hist, [op |-> [o |-> "fn", loc |-> loc, sp |-> sp, a |-> R(a), b |-> b, s |-> R(s),
                                       at |-> [j \in 1..2 |-> LET d == FromKindAny(loc, sp, at(xs[j]), R(s)) IN [x |-> R(xs[j]), mu |-> d.mu, sg |-> d.sg]]], i |-> 0])

Step(k) == CASE k <= 4 -> \E kind \in Pick(Kinds) : Build(kind)
             [] k = 5 -> \E h \in Pick({"p", "n", "a"}) : Scale(h)
             [] k \in {6, 7} -> AddUp
             [] k \in {8, 9} -> Mix
             [] k = 10 -> Mismatch [] k \in {11, 12} -> Fn
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in (IF n < 2 THEN {1} ELSE Pick(1..12)) : Step(k)
           \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))

(* the same for every pair of parameters, without the history: Depth 1 *)
Every ==
  /\ n = 0
  /\ \E k \in Kinds : \E m \in (IF k = "mu_sdln" THEN LogMeans ELSE Locations \cup {<<0, 1>>}) :
     \E s \in (IF k = "mean_sd" THEN Rels ELSE SdLns) :
       LET s1 == IF k = "mean_sd" /\ m[1] # 0 THEN RMul(s, m) ELSE s
       IN Make([o |-> "build", k |-> k, a |-> R(m), b |-> R(s1)], FromKind(k, R(m), R(s1)), k # "mu_sdln" /\ m[1] = 0)
SpecEvery == Init /\ [][Every]_vars
EmitEvery == n = 1 => PrintT("@@" \o ToJson(hist))
=============================================================================
