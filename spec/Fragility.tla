----------------------------- MODULE Fragility -----------------------------
(* Fragility functions: which are accepted, and what they say of a demand. *)
EXTENDS Terms, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES cur, hist
vars == <<cur, hist>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

(* --- the rules ----------------------------------------------------------- *)
Medians(s) == [i \in 1..Len(s) |-> s[i].mu]
(* comparisons are between real numbers, so acceptance is an expression     *)
Accepted(ds) == IF Len(ds) = 0 THEN False
                ELSE IF Len(ds) = 1 THEN True
                ELSE All([i \in 1..(Len(ds) - 1) |-> Lt(ds[i].mu, ds[i + 1].mu)])
Exceeded(ds, x) == [i \in 1..Len(ds) |-> AtMost(ds[i], x)]
(* the differences of successive exceedances, from what was observed of them *)
HighestOf(e) == [i \in 1..Len(e) |-> IF i = Len(e) THEN e[i] ELSE Max(N(0), Sub(e[i], e[i + 1]))]

(* The partition, in whole percentages: for every decreasing sequence of    *)
(* exceedances the highest-state probabilities lie in 0..100 and add up to   *)
(* the first; for any sequence they lie in 0..100.                          *)
HighestI(e) == [i \in 1..Len(e) |-> IF i = Len(e) THEN e[i] ELSE IF e[i] > e[i + 1] THEN e[i] - e[i + 1] ELSE 0]
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE s[1] + SumI(Tail(s))
Percent == {0, 1, 30, 50, 99, 100}
InitSmall == cur \in UNION {[1..n -> Percent] : n \in 1..4} /\ hist = <<>>
SpecSmall == InitSmall /\ [][UNCHANGED vars]_vars
PartitionOk == LET h == HighestI(cur) IN
  /\ \A i \in 1..Len(h) : h[i] \in 0..100
  /\ (\A i \in 1..(Len(cur) - 1) : cur[i] >= cur[i + 1]) => SumI(h) = cur[1]

(* --- behaviours ---------------------------------------------------------- *)
Kinds == {"mean_sdln", "mean_sd", "med_sdln", "mu_sdln"}
Grid == 1..12
Med(g) == CASE g = 1 -> <<1, 1000>> [] g = 2 -> <<1, 250>> [] g = 3 -> <<1, 100>> [] g = 4 -> <<1, 30>> [] g = 5 -> <<1, 10>> [] g = 6 -> <<1, 5>>
            [] g = 7 -> <<1, 2>> [] g = 8 -> <<1, 1>> [] g = 9 -> <<2, 1>> [] g = 10 -> <<3, 1>> [] g = 11 -> <<10, 1>> [] g = 12 -> <<40, 1>>
Mu(g) == <<2 * g - 14, 2>>
SdLns == {<<1, 20>>, <<1, 5>>, <<2, 5>>, <<9, 10>>}
State(k, g, s) == [k |-> k, a |-> IF k = "mu_sdln" THEN Mu(g) ELSE Med(g), b |-> IF k = "mean_sd" THEN RMul(s, Med(g)) ELSE s]
Terms1(x) == FromKind(x.k, R(x.a), R(x.b))
Demands == {<<0, 1>>, <<1, 2000>>, <<1, 300>>, <<1, 40>>, <<3, 20>>, <<4, 5>>, <<5, 2>>, <<21, 1>>, <<1000, 1>>}

(* increasing draws of the grid mostly, so that many are accepted; the      *)
(* states can be given in different ways                                     *)
Up(n) == LET R1 == [i \in 1..n |-> RandomElement(0..2)]
             Acc[i \in 1..n] == IF i = 1 THEN 1 + R1[1] ELSE Acc[i - 1] + R1[i]
         IN [i \in 1..n |-> IF Acc[i] > 12 THEN 12 ELSE Acc[i]]
Define == \E n \in Pick({0, 1, 2, 2, 3, 3, 4, 5}) : \E how \in Pick(1..5) : \E kk \in Pick(Kinds) :
          \E one \in Pick(1..3) : \E sd \in Pick(SdLns) :
          \E g \in {IF how <= 3 THEN Up(n) ELSE [i \in 1..n |-> RandomElement(Grid)]} :
          \E k \in {[i \in 1..n |-> IF one <= 2 THEN kk ELSE RandomElement(Kinds)]} :
          \E s \in {[i \in 1..n |-> IF one = 1 THEN sd ELSE RandomElement(SdLns)]} :
    LET states == [i \in 1..n |-> State(k[i], g[i], s[i])]
        ds == [i \in 1..n |-> Terms1(states[i])]
    IN /\ cur' = ds
       /\ hist' = Append(hist, [op |-> "define", states |-> [i \in 1..n |-> [k |-> k[i], a |-> R(states[i].a), b |-> R(states[i].b)]],
                                ok |-> Accepted(ds)])
Ask == \E x \in Pick(Demands) :
    /\ UNCHANGED cur
    /\ hist' = Append(hist, [op |-> "ask", x |-> R(x), exceeded |-> Exceeded(cur, R(x)),
                             highest |-> HighestOf([i \in 1..Len(cur) |-> Ref(ToString(i))])])
Init == cur = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in Pick(1..3) : IF Len(hist) = 0 \/ c = 1 THEN Define ELSE Ask
           \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
