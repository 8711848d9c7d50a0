-------------------------------- MODULE Loss --------------------------------
(* Loss functions: the case analysis over the number of components, the    *)
(* combination over damage states, and the groups that use them.           *)
EXTENDS Terms, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES fns, frags, groups, hist
vars == <<fns, frags, groups, hist>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

(* --- the rules ----------------------------------------------------------- *)
(* a two-level unit cost: b.hi up to b.min components, b.lo from b.max on   *)
UnitCost(b, n) ==
  IF n <= b.min THEN b.hi
  ELSE IF n >= b.max THEN b.lo
  ELSE RAdd(b.hi, RMul(<<n - b.min, b.max - b.min>>, RSub(b.lo, b.hi)))
States(fn) == Len(fn.s)
UnitDist(fn, i, n) == IF fn.k = "bloss" THEN FromMeanSdLn(R(UnitCost(fn.s[i], n)), R(fn.s[i].disp))
                      ELSE FromKind(fn.s[i].k, R(fn.s[i].a), R(fn.s[i].b))
(* The loss, as a list of named values, each an expression over earlier     *)
(* ones: the states' mean and deviation, their mixture's, and the result's   *)
(* mean and log-deviation.                                                  *)
Nm(a, i) == a \o ToString(i)
LossOf(fn, w, n, adj) ==
  LET k == States(fn)
      u == [i \in 1..k |-> UnitDist(fn, i, n)]
      m(i) == Ref(Nm("m", i))
      v(i) == Ref(Nm("v", i))
      x(i) == Ref(Nm("w", i))
  IN [i \in 1..k |-> <<Nm("w", i), w[i]>>]
     \o [i \in 1..k |-> <<Nm("m", i), MeanOf(u[i])>>] \o [i \in 1..k |-> <<Nm("v", i), Sq(SdOf(u[i]))>>]
     \o << <<"m", Sum([i \in 1..k |-> Mul(m(i), x(i))])>>,
           <<"v", Sub(Sum([i \in 1..k |-> Mul(Add(Sq(m(i)), v(i)), x(i))]), Sq(Ref("m")))>>,
           <<"mean", Mul(Mul(Ref("m"), N(n)), adj)>>,
           <<"sg", SdLnFrom(Ref("m"), Sqrt(Max(N(0), Ref("v"))))>> >>
Exceeded(ds, x) == [i \in 1..Len(ds) |-> AtMost(ds[i], x)]
Highest(e) == [i \in 1..Len(e) |-> IF i = Len(e) THEN e[i] ELSE Max(N(0), Sub(e[i], e[i + 1]))]

(* --- what the two-level rule amounts to, exactly, for every count -------- *)
Bs == {[min |-> a, max |-> b, hi |-> h, lo |-> l] : a \in 0..4, b \in 1..7, h \in {<<0, 1>>, <<7, 2>>, <<10, 1>>}, l \in {<<1, 3>>, <<7, 2>>}}
InitSmall == fns \in {<<b>> : b \in {x \in Bs : x.min <= x.max}} /\ frags = <<>> /\ groups = <<>> /\ hist = <<>>
SpecSmall == InitSmall /\ [][UNCHANGED vars]_vars
Between(a, b, c) == (RLe(a, b) /\ RLe(b, c)) \/ (RLe(c, b) /\ RLe(b, a))
BiLevelOk == LET b == fns[1] IN
  /\ \A n \in 0..10 : Between(b.hi, UnitCost(b, n), b.lo)
  /\ REq(UnitCost(b, b.min), b.hi)
  /\ b.min < b.max => REq(UnitCost(b, b.max), b.lo)
  /\ \A n \in 0..9 : (n >= b.min /\ n + 2 <= b.max) =>     \* linear in between
        REq(RSub(UnitCost(b, n + 1), UnitCost(b, n)), RSub(UnitCost(b, n + 2), UnitCost(b, n + 1)))
  /\ RLe(b.lo, b.hi) => \A n \in 0..9 : RLe(UnitCost(b, n + 1), UnitCost(b, n))

(* --- behaviours ---------------------------------------------------------- *)
Costs == {<<0, 1>>, <<1, 50>>, <<1, 1>>, <<7, 3>>, <<24, 1>>, <<1300, 1>>}
Disps == {<<1, 100>>, <<1, 5>>, <<1, 2>>, <<6, 5>>}
Simple(n) == [i \in 1..n |-> LET k == RandomElement({"mean_sdln", "mean_sd", "med_sdln"})
                                 a == RandomElement(Costs \ {<<0, 1>>})
                                 b == RandomElement(Disps)
                             IN [k |-> k, a |-> a, b |-> IF k = "mean_sd" THEN RMul(a, b) ELSE b]]
BiLevel(n) == [i \in 1..n |-> LET lo == RandomElement(0..12)
                     b == [min |-> lo, max |-> lo] IN
                 [min |-> b.min, max |-> b.max + RandomElement(0..9), hi |-> RandomElement(Costs), lo |-> RandomElement(Costs), disp |-> RandomElement(Disps)]]
DefLoss == \E n \in Pick({0, 1, 1, 2, 3, 4}) : \E k \in Pick({"sloss", "bloss"}) : \E s \in {IF k = "sloss" THEN Simple(n) ELSE BiLevel(n)} :
    /\ fns' = IF n = 0 THEN fns ELSE Append(fns, [k |-> k, s |-> s])
    /\ UNCHANGED <<frags, groups>>
    /\ hist' = Append(hist, [op |-> "loss", i |-> Len(fns) + 1, k |-> k, s |-> s, ok |-> n > 0])
(* n probabilities that add up to at most one *)
Probs(n) == [i \in 1..n |-> <<RandomElement({0, 1, 2, 5, 9, 10}), 10 * n>>]
Counts == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 21, 100}
Adjs == {<<1, 1>>, <<1, 2>>, <<3, 2>>, <<0, 1>>, <<12, 1>>}
Ask == \E i \in Pick(1..Len(fns)) : \E c \in Pick(Counts) : \E a \in Pick(Adjs) : \E w \in {Probs(States(fns[i]))} :
    /\ UNCHANGED <<fns, frags, groups>>
    /\ hist' = Append(hist, [op |-> "ask", i |-> i, n |-> c, adj |-> R(a), w |-> [j \in 1..Len(w) |-> R(w[j])],
                             d |-> LossOf(fns[i], [j \in 1..Len(w) |-> R(w[j])], c, R(a))])
Mismatch == \E i \in Pick(1..Len(fns)) : \E m \in Pick(0..5) : \E c \in Pick(Counts) :
    /\ m # States(fns[i]) /\ UNCHANGED <<fns, frags, groups>>
    /\ hist' = Append(hist, [op |-> "mismatch", i |-> i, n |-> c, w |-> [j \in 1..m |-> R(<<1, 10>>)]])
Med(g) == CASE g = 1 -> <<1, 1000>> [] g = 2 -> <<1, 200>> [] g = 3 -> <<1, 50>> [] g = 4 -> <<1, 10>> [] g = 5 -> <<1, 2>> [] g = 6 -> <<3, 1>>
(* one dispersion: more severe states are less likely at every demand *)
DefFrag == \E n \in Pick(1..4) : \E o \in Pick(0..2) : \E sd \in Pick({<<1, 10>>, <<2, 5>>, <<4, 5>>}) : \E s \in {[i \in 1..n |-> sd]} :
    /\ frags' = Append(frags, [i \in 1..n |-> FromMedianSdLn(R(Med(i + o)), R(s[i]))])
    /\ UNCHANGED <<fns, groups>>
    /\ hist' = Append(hist, [op |-> "frag", i |-> Len(frags) + 1, s |-> [j \in 1..n |-> <<R(Med(j + o)), R(s[j])>>]])
DefGroup == \E f \in Pick(1..Len(frags)) : \E a \in Pick(0..Len(fns)) : \E b \in Pick(0..Len(fns)) : \E n \in Pick(Counts) : \E p \in Pick(Adjs) : \E q \in Pick(Adjs) :
    /\ groups' = Append(groups, [f |-> f, cost |-> a, delay |-> b, n |-> n, cadj |-> p, dadj |-> q])
    /\ UNCHANGED <<fns, frags>>
    /\ hist' = Append(hist, [op |-> "group", i |-> Len(groups) + 1, f |-> f, cost |-> a, delay |-> b, n |-> n, cadj |-> R(p), dadj |-> R(q)])
Demands == {<<0, 1>>, <<1, 5000>>, <<1, 700>>, <<1, 90>>, <<1, 15>>, <<3, 10>>, <<1, 1>>, <<5, 1>>, <<50, 1>>}
AskGroup == \E i \in Pick(1..Len(groups)) : \E what \in Pick({"cost", "delay"}) : \E x \in Pick(Demands) :
    LET g == groups[i]
        fn == IF what = "cost" THEN g.cost ELSE g.delay
        w == Highest(Exceeded(frags[g.f], R(x)))
        ok == fn # 0 /\ States(fns[fn]) = Len(frags[g.f])
        d == LossOf(fns[fn], w, g.n, R(IF what = "cost" THEN g.cadj ELSE g.dadj))
    IN /\ fn # 0 /\ UNCHANGED <<fns, frags, groups>>
       /\ hist' = Append(hist, IF ok THEN [op |-> "get", i |-> i, what |-> what, x |-> R(x), ok |-> ok, d |-> d]
                               ELSE [op |-> "get", i |-> i, what |-> what, x |-> R(x), ok |-> ok])
Init == fns = <<>> /\ frags = <<>> /\ groups = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in Pick(1..20) :
                IF Len(fns) = 0 \/ c <= 3 THEN DefLoss
                ELSE IF c \in 4..8 THEN Ask
                ELSE IF c = 9 THEN Mismatch
                ELSE IF Len(frags) = 0 \/ c = 10 THEN DefFrag
                ELSE IF Len(groups) = 0 \/ c \in 11..13 THEN DefGroup
                ELSE AskGroup
           \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
(* one two-level unit cost at every count around its bounds *)
SweepDefs == {[min |-> a, max |-> a + w, hi |-> h, lo |-> l, disp |-> <<1, 2>>] : a \in {0, 1, 5, 9}, w \in {0, 1, 2, 3, 7}, h \in {<<10, 1>>, <<3, 1>>}, l \in {<<4, 1>>, <<7, 3>>}}
InitSweep == /\ \E b \in SweepDefs : \E up \in BOOLEAN :
                LET fn == [k |-> "bloss", s |-> <<b>>]
                    m == b.max + 4
                    ask(n) == LET d == LossOf(fn, <<R(<<1, 1>>)>>, n, R(<<1, 1>>)) IN
                              [op |-> "ask", i |-> 1, n |-> n, adj |-> R(<<1, 1>>), w |-> <<R(<<1, 1>>)>>, d |-> d]
                IN hist = <<[op |-> "loss", i |-> 1, k |-> "bloss", s |-> <<b>>, ok |-> TRUE]>> \o [n \in 1..(m + 1) |-> ask(IF up THEN n - 1 ELSE m + 1 - n)]
             /\ fns = <<>> /\ frags = <<>> /\ groups = <<>>
SpecSweep == InitSweep /\ [][UNCHANGED vars]_vars
EmitSweep == PrintT("@@" \o ToJson(hist))
=============================================================================
