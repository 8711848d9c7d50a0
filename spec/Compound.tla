------------------------------ MODULE Compound ------------------------------
(* A demand defined as the larger of two, while what it is made of changes  *)
(* in place, is replaced, and is replaced again.                            *)
EXTENDS Terms, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES det,      \* functions: the mean and the spread, a * x^b
          prob,     \* lognormal functions: which two functions, and how they are read
          edp,      \* the compound demands: which two lognormal functions
          hist
vars == <<det, prob, edp, hist>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Ms == {"m1", "m2", "m3"}
Ss == {"s1", "s2"}
Ps == {"p1", "p2", "p3", "p4"}
Es == {"e1", "e2"}

(* --- the rule ------------------------------------------------------------ *)
ValueAt(d, x) == Mul(R(d.a), R(CASE d.b = 0 -> <<1, 1>> [] d.b = 1 -> x [] d.b = 2 -> RMul(x, x)))
At(p, x) == FromKindAny(prob[p].loc, prob[p].sp, ValueAt(det[prob[p].m], x), ValueAt(det[prob[p].s], x))
Governs(p, q, x) == Lt(MeanOf(At(q, x)), MeanOf(At(p, x)))
(* the answers of one distribution, and the values they are asked for *)
Ys == <<<<1, 1000>>, <<1, 30>>, <<2, 5>>, <<3, 1>>, <<50, 1>>>>
Answers == LET d == Dist(Ref("mu"), Ref("sg")) IN
  <<MeanOf(d), d.mu, MedianOf(d), d.sg, SdOf(d)>> \o [i \in 1..Len(Ys) |-> AtLeast(d, R(Ys[i]))]
ASSUME PrintT("##" \o ToJson([answers |-> Answers, ys |-> [i \in 1..Len(Ys) |-> R(Ys[i])]]))

(* The rule on whole numbers: whatever the means, the governing one is the   *)
(* larger, and the other way round when the two are exchanged.               *)
InitSmall == det \in [{"m1", "m2"} -> 0..5] /\ prob = 0 /\ edp = 0 /\ hist = <<>>
SpecSmall == InitSmall /\ [][UNCHANGED vars]_vars
First(a, b) == a > b
LargerOk == LET a == det["m1"]
                b == det["m2"]
                g == IF First(a, b) THEN a ELSE b
            IN g >= a /\ g >= b /\ g = (IF First(b, a) THEN b ELSE a)

(* --- behaviours ---------------------------------------------------------- *)
(* steps of a factor that is no power of the others' keep means apart        *)
MeanPars == {[a |-> a, b |-> b] : a \in {<<1, 70>>, <<1, 9>>, <<5, 11>>, <<13, 10>>, <<17, 3>>}, b \in {0, 1, 2}}
SpreadPars == {[a |-> a, b |-> 0] : a \in {<<1, 20>>, <<3, 10>>, <<7, 10>>, <<6, 5>>}}
DetOp(o, n, d) == [op |-> o, x |-> n, a |-> R(d.a), b |-> d.b]
Init == /\ \E f \in {[n \in Ms |-> RandomElement(MeanPars)]} : \E g \in {[n \in Ss |-> RandomElement(SpreadPars)]} :
             det = [n \in Ms \cup Ss |-> IF n \in Ms THEN f[n] ELSE g[n]]
        /\ \E f \in {[n \in Ps |-> [m |-> RandomElement(Ms), s |-> RandomElement(Ss), loc |-> RandomElement({"mean", "mean", "median"}), sp |-> RandomElement({"sdln", "sdln", "sd"})]]} : prob = f
        /\ \E f \in {[n \in Es |-> <<RandomElement(Ps), RandomElement(Ps)>>]} : edp = f
        /\ hist = <<[op |-> "start", det |-> [n \in Ms \cup Ss |-> [a |-> R(det[n].a), b |-> det[n].b]], prob |-> prob, edp |-> edp]>>
ChangeDet == \E n \in Pick(Ms \cup Ss) : \E d \in Pick(IF n \in Ms THEN MeanPars ELSE SpreadPars) :
    /\ det' = [det EXCEPT ![n] = d] /\ UNCHANGED <<prob, edp>>
    /\ hist' = Append(hist, DetOp("change", n, d))
(* those that used a use b from now on; a remains, with nobody using it      *)
ReplaceDet == \E S \in Pick({Ms, Ss}) : \E a \in Pick(S) : \E b \in Pick(S) :
    /\ prob' = [p \in Ps |-> [prob[p] EXCEPT !.m = IF @ = a THEN b ELSE @, !.s = IF @ = a THEN b ELSE @]]
    /\ UNCHANGED <<det, edp>>
    /\ hist' = Append(hist, [op |-> "replace", x |-> a, y |-> b])
ReplaceProb == \E a \in Pick(Ps) : \E b \in Pick(Ps) :
    /\ edp' = [e \in Es |-> [i \in 1..2 |-> IF edp[e][i] = a THEN b ELSE edp[e][i]]]
    /\ UNCHANGED <<det, prob>>
    /\ hist' = Append(hist, [op |-> "replace", x |-> a, y |-> b])
Xs == {<<1, 20>>, <<3, 10>>, <<4, 5>>, <<1, 1>>, <<5, 2>>, <<9, 1>>}
Ask == \E e \in Pick(Es) : \E x \in Pick(Xs) :
    LET p == edp[e][1]
        q == edp[e][2]
        d(r) == LET t == At(r, x) IN [mu |-> t.mu, sg |-> t.sg, mean |-> MeanOf(t)]
    IN /\ UNCHANGED <<det, prob, edp>>
       /\ hist' = Append(hist, [op |-> "ask", e |-> e, x |-> R(x), p |-> p, q |-> q, dp |-> d(p), dq |-> d(q), first |-> Governs(p, q, x)])
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in Pick(1..12) : CASE c <= 2 -> ChangeDet [] c = 3 -> ReplaceDet [] c \in 4..5 -> ReplaceProb [] OTHER -> Ask
           \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
