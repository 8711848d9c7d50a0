----------------------------- MODULE Definitions -----------------------------
(* What the results of a model are: expectations over the demand at an      *)
(* intensity, and over the intensities that the hazard brings in a year.    *)
(*                                                                         *)
(* Over(v, g, F) is the integral of g against |dF|, v running from 0 to oo: *)
(* the mean of g, when F is the probability of exceeding v, and how often   *)
(* in a year what has probability g happens, when F is the hazard.          *)
EXTENDS Terms, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES m,       \* the model: settings of the integration, hazard, fates, demands, fragilities, losses, groups, structure
          hist
vars == <<m, hist>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Over(v, g, F) == [op |-> "over", v |-> v, a |-> g, b |-> F]
IM == Ref("im")
EDP == Ref("edp")

(* --- the hazard ---------------------------------------------------------- *)
(* tables: a power of x on every segment, constant outside                   *)
RECURSIVE Table(_, _, _)
Seg(h, i, x) == LET l(r) == Ln(R(r)) IN
  Exp(Add(l(h.ys[i]), Mul(Div(Sub(Ln(x), l(h.xs[i])), Sub(l(h.xs[i + 1]), l(h.xs[i]))), Sub(l(h.ys[i + 1]), l(h.ys[i])))))
Table(h, i, x) == IF i = Len(h.xs) THEN R(h.ys[i]) ELSE IfT(Le(x, R(h.xs[i + 1])), Seg(h, i, x), Table(h, i + 1, x))
Rate(h, x) ==
  CASE h.k = "plc" -> Mul(R(h.a), Pow(x, R(h.b)))
    [] h.k = "nlh" -> IfT(Le(R(h.b), x), N(0), Mul(R(h.a), Exp(Div(R(h.c), Ln(Div(x, R(h.b)))))))
    [] h.k = "loglog" -> IfT(Le(x, R(h.xs[1])), R(h.ys[1]), Table(h, 1, x))
Slope(h, x) ==
  CASE h.k = "plc" -> Mul(Mul(R(h.a), R(h.b)), Pow(x, R(RSub(h.b, <<1, 1>>))))
    [] h.k = "nlh" -> IfT(Le(R(h.b), x), N(0), Mul(Rate(h, x), Div(R(h.c), Mul(x, Sq(Ln(Div(x, R(h.b))))))))
Yearly(g) == Over("im", g, Rate(m.h, IM))

(* --- what becomes of the structure ---------------------------------------- *)
Of(d, x) == IF d = <<>> THEN N(0) ELSE AtMost(FromKind(d[1].k, R(d[1].a), R(d[1].b)), x)
PC(x) == Of(m.col, x)
PD(x) == IF m.dem = <<>> THEN N(0) ELSE Max(N(0), Sub(Of(m.dem, x), PC(x)))
PR(x) == Sub(N(1), Add(PC(x), PD(x)))
CollapseRate == Yearly(PC(IM))
DemolitionRate == Yearly(PD(IM))

(* --- demands --------------------------------------------------------------- *)
Law(d, x) == Mul(R(d.a), Pow(x, R(d.b)))
At(p, x) == FromKindAny(p.loc, p.sp, Law(p.m, x), Law(p.s, x))
Exceeds(e, x, y) ==
  IF Len(e) = 1 THEN AtLeast(At(e[1], x), y)
  ELSE IfT(Lt(MeanOf(At(e[2], x)), MeanOf(At(e[1], x))), AtLeast(At(e[1], x), y), AtLeast(At(e[2], x), y))
(* a demand is exceeded, too, by a structure that is not repaired             *)
DemandRate(e, y) == Yearly(Add(Mul(Exceeds(m.edp[e], IM, y), PR(IM)), Sub(N(1), PR(IM))))

(* --- component groups ------------------------------------------------------ *)
State(g, i) == FromMedianSdLn(R(m.frag[g.f][i].med), R(m.frag[g.f][i].sd))
Highest(g, i, y) == IF i = Len(m.frag[g.f]) THEN AtMost(State(g, i), y)
                    ELSE Max(N(0), Sub(AtMost(State(g, i), y), AtMost(State(g, i + 1), y)))
UnitCost(b, n) ==
  IF n <= b.min THEN b.hi
  ELSE IF n >= b.max THEN b.lo
  ELSE RAdd(b.hi, RMul(<<n - b.min, b.max - b.min>>, RSub(b.lo, b.hi)))
Unit(fn, i, n) == IF fn.k = "bloss" THEN FromMeanSdLn(R(UnitCost(fn.s[i], n)), R(fn.s[i].disp))
                  ELSE FromKind(fn.s[i].k, R(fn.s[i].a), R(fn.s[i].b))
(* kinds of losses: cost and delay                                           *)
Fn(g, w) == IF w = "cost" THEN m.loss[g.cost] ELSE m.loss[g.delay]
Scale(g, w) == RMul(<<g.n, 1>>, IF w = "cost" THEN g.cadj ELSE g.dadj)
MeanAt(g, w, y) == Mul(R(Scale(g, w)), Sum([i \in 1..Len(m.frag[g.f]) |-> Mul(Highest(g, i, y), MeanOf(Unit(Fn(g, w), i, g.n)))]))
SquareAt(g, w, y) == Mul(R(RMul(Scale(g, w), Scale(g, w))),
  Sum([i \in 1..Len(m.frag[g.f]) |-> LET d == Unit(Fn(g, w), i, g.n) IN Mul(Highest(g, i, y), Add(Sq(MeanOf(d)), Sq(SdOf(d))))]))
OfDemand(g, x, t) == Over("edp", t, Exceeds(m.edp[g.e], x, EDP))
Mean(g, w, x) == OfDemand(g, x, MeanAt(g, w, EDP))
Square(g, w, x) == OfDemand(g, x, SquareAt(g, w, EDP))
(* below which there is nothing to tell *)
Nothing == Exp(N(-100))
SdLn(mean, square) == IfT(Le(mean, Nothing), N(0), Sqrt(Max(N(0), Ln(Div(square, Sq(mean))))))
Reached(g, i, x) == OfDemand(g, x, AtMost(State(g, i), EDP))
StateRate(g, i) == Yearly(Reached(g, i, IM))
AnnualCost(g) == Yearly(Mean(g, "cost", IM))
CostRate(g, c) == LET e == Mean(g, "cost", IM) IN
  Yearly(IfT(Le(e, Nothing), N(0), AtLeast(FromMeanSdLn(e, SdLn(e, Square(g, "cost", IM))), c)))

(* --- the structure --------------------------------------------------------- *)
G(i) == m.groups[m.mem[i]]
RepairMean(x) == Sum([i \in 1..Len(m.mem) |-> Mean(G(i), "cost", x)])
RepairVar(x) == Sum([i \in 1..Len(m.mem) |-> Max(N(0), Sub(Square(G(i), "cost", x), Sq(Mean(G(i), "cost", x))))])
CostOf(d) == FromKind(d.k, R(d.a), R(d.b))
TotalMean(x) == Add(Add(Mul(RepairMean(x), PR(x)), Mul(MeanOf(CostOf(m.reb)), PC(x))), Mul(MeanOf(CostOf(m.dmo)), PD(x)))
SquareOf(d) == Add(Sq(MeanOf(d)), Sq(SdOf(d)))
TotalSquare(x) == Add(Add(Mul(Add(Sq(RepairMean(x)), RepairVar(x)), PR(x)), Mul(SquareOf(CostOf(m.reb)), PC(x))), Mul(SquareOf(CostOf(m.dmo)), PD(x)))
TotalSd(x) == Sqrt(Max(N(0), Sub(TotalSquare(x), Sq(TotalMean(x)))))
AnnualMean == Yearly(TotalMean(IM))
AnnualSd == Sqrt(Abs(Sub(Yearly(TotalSquare(IM)), Sq(AnnualMean))))
Present(y, r) == Mul(Div(Sub(N(1), Exp(Mul(N(-y), R(r)))), R(r)), AnnualMean)
Density(x) == Mul(TotalMean(x), Abs(Slope(m.h, x)))

(* --- in whole numbers ------------------------------------------------------ *)
(* Three demands, two damage states, and intensities met so many times: the   *)
(* yearly cost is the cost of each state times how often it is the highest,   *)
(* which the definitions give in a different order of summation, and what is  *)
(* reached is what is highest or exceeded.                                    *)
RECURSIVE Plus(_, _)
Plus(f, n) == IF n = 0 THEN 0 ELSE Plus(f, n - 1) + f[n]
InitSmall == /\ hist = <<>>
             /\ m \in [met : [1..2 -> {0, 1, 3}], dem : [1..2 -> {<<2, 3, 1>>, <<1, 1, 4>>, <<0, 0, 6>>}],
                       reach : [1..2 -> [1..3 -> 0..1]], cost : [1..2 -> 0..2]]
SpecSmall == InitSmall /\ [][UNCHANGED vars]_vars
SmallOk == (\A y \in 1..3 : m.reach[2][y] <= m.reach[1][y]) =>
  LET high(i, y) == IF i = 2 THEN m.reach[2][y] ELSE m.reach[1][y] - m.reach[2][y]
      meanat(y) == high(1, y) * m.cost[1] + high(2, y) * m.cost[2]
      mean(x) == Plus([y \in 1..3 |-> m.dem[x][y] * meanat(y)], 3)
      annual == Plus([x \in 1..2 |-> m.met[x] * mean(x)], 2)
      reached(i, x) == Plus([y \in 1..3 |-> m.dem[x][y] * m.reach[i][y]], 3)
      rate(i) == Plus([x \in 1..2 |-> m.met[x] * reached(i, x)], 2)
  IN annual = m.cost[1] * (rate(1) - rate(2)) + m.cost[2] * rate(2)

(* --- behaviours ------------------------------------------------------------ *)
One(S) == RandomElement(S)
Hazards == {[k |-> "plc", a |-> <<1, 1000>>, b |-> <<-5, 2>>], [k |-> "plc", a |-> <<3, 10000>>, b |-> <<-2, 1>>], [k |-> "plc", a |-> <<1, 400>>, b |-> <<-3, 1>>],
            [k |-> "nlh", a |-> <<1221, 1>>, b |-> <<298, 10>>, c |-> <<622, 10>>], [k |-> "nlh", a |-> <<1221, 1>>, b |-> <<40, 1>>, c |-> <<70, 1>>],
            [k |-> "loglog", xs |-> <<<<1, 100>>, <<1, 10>>, <<1, 1>>, <<4, 1>>>>, ys |-> <<<<3, 10>>, <<1, 10>>, <<1, 2000>>, <<1, 500000>>>>]}
Fragilities == {[k |-> k, a |-> a, b |-> b] : k \in {"mean_sdln", "med_sdln"}, a \in {<<3, 5>>, <<6, 5>>, <<5, 2>>}, b \in {<<3, 10>>, <<3, 5>>}}
CostDists == {[k |-> k, a |-> a, b |-> b] : k \in {"mean_sdln", "med_sdln"}, a \in {<<20, 1>>, <<140, 1>>, <<900, 1>>}, b \in {<<1, 10>>, <<7, 20>>}}
(* every choice is bound once, by a quantifier *)
NewProb(loc) == TLCEval([m |-> [a |-> One({<<1, 100>>, <<3, 100>>, <<1, 10>>}), b |-> One({<<1, 1>>, <<3, 2>>, <<5, 4>>})],
                         s |-> [a |-> One({<<3, 10>>, <<1, 2>>}), b |-> <<0, 1>>], loc |-> One(loc), sp |-> "sdln"])
Meds == <<<<1, 500>>, <<1, 100>>, <<1, 30>>, <<1, 8>>>>
TwoLevels == UNION {{[min |-> lo, max |-> lo + w, hi |-> h, lo |-> l, disp |-> s] : h \in {<<5, 1>>, <<12, 1>>}, l \in {<<1, 1>>, <<3, 1>>}, s \in {<<1, 5>>, <<2, 5>>}} :
                      lo \in {0, 1, 4}, w \in {0, 2, 5, 9}}
Simples == {[k |-> k, a |-> a, b |-> IF k = "mean_sd" THEN RMul(a, <<1, 3>>) ELSE <<3, 10>>] : k \in {"mean_sdln", "med_sdln", "mean_sd"}, a \in {<<1, 2>>, <<2, 1>>, <<15, 1>>}}
Frags == {[i \in 1..n |-> [med |-> Meds[i + o], sd |-> sd]] : n \in 1..3, o \in 0..1, sd \in {<<3, 10>>, <<1, 2>>}}
LossKind(k, n) == TLCEval([k |-> k, s |-> TLCEval([i \in 1..n |-> One(IF k = "bloss" THEN TwoLevels ELSE Simples)])])
Group(f) == TLCEval([e |-> One(1..2), f |-> f, cost |-> f, delay |-> 2 + f, n |-> One({1, 2, 3, 8, 20}), cadj |-> One({<<1, 1>>, <<3, 2>>}), dadj |-> One({<<1, 1>>, <<1, 2>>})])
NewModel ==
  \E f1 \in Pick(Frags) : \E f2 \in Pick(Frags) : \E p1 \in {NewProb({"mean", "median"})} : \E p2 \in {NewProb({"mean"})} : \E p3 \in {NewProb({"mean"})} :
  \E k1 \in Pick({"sloss", "bloss"}) : \E k2 \in Pick({"sloss", "bloss"}) : \E k3 \in Pick({"sloss", "bloss"}) : \E k4 \in Pick({"sloss", "bloss"}) :
  \E ls \in {TLCEval(<<LossKind(k1, Len(f1)), LossKind(k2, Len(f2)), LossKind(k3, Len(f1)), LossKind(k4, Len(f2))>>)} :
  \E gf \in Pick(1..2) : \E gs \in {TLCEval(<<Group(1), Group(2), Group(gf)>>)} :
  \E h \in Pick(Hazards) : \E c \in Pick(1..4) : \E d \in Pick(1..3) : \E fc \in Pick(Fragilities) : \E fd \in Pick(Fragilities) :
  \E reb \in Pick(CostDists) : \E dmo \in Pick(CostDists) : \E method \in Pick(0..4) :
  m = [method |-> method, h |-> h, col |-> IF c = 1 THEN <<>> ELSE <<fc>>, dem |-> IF d = 1 THEN <<>> ELSE <<fd>>, reb |-> reb, dmo |-> dmo,
       edp |-> <<<<p1>>, <<p2, [p3 EXCEPT !.s = p2.s]>>>>, frag |-> <<f1, f2>>, loss |-> ls, groups |-> [i \in 1..3 |-> IF i = 1 THEN [gs[1] EXCEPT !.n = 1] ELSE gs[i]], mem |-> <<>>]
Init == NewModel /\ hist = <<[op |-> "model", m |-> m]>>

Ims == {<<1, 20>>, <<1, 4>>, <<3, 5>>, <<1, 1>>, <<2, 1>>}
Edps == {<<1, 300>>, <<1, 80>>, <<1, 20>>, <<1, 5>>}
Change ==
  \E c \in Pick(1..6) :
    CASE c = 1 -> \E v \in Pick({<<>>} \cup {<<d>> : d \in Fragilities}) : m' = [m EXCEPT !.col = v] /\ hist' = Append(hist, [op |-> "col", d |-> v])
      [] c = 2 -> \E v \in Pick({<<>>} \cup {<<d>> : d \in Fragilities}) : m' = [m EXCEPT !.dem = v] /\ hist' = Append(hist, [op |-> "dem", d |-> v])
      [] c = 3 -> \E d \in Pick(CostDists) : m' = [m EXCEPT !.reb = d] /\ hist' = Append(hist, [op |-> "rebuild", d |-> d])
      [] c = 4 -> \E d \in Pick(CostDists) : m' = [m EXCEPT !.dmo = d] /\ hist' = Append(hist, [op |-> "demo", d |-> d])
      [] OTHER -> \E g \in Pick(1..3) : Len(m.mem) < 4 /\ m' = [m EXCEPT !.mem = Append(@, g)] /\ hist' = Append(hist, [op |-> "add", g |-> g])
Asked(o, w, x, t) == UNCHANGED m /\ hist' = Append(hist, [op |-> "ask", o |-> o, w |-> w, x |-> x, t |-> t])
None == N(0)
Name(k, i) == k \o ToString(i)
(* A finding (known_findings.txt): for several components, the library divides the mean of a delay by their number, but not its deviation. *)
DelayShare(g, x) == LET n == N(g.n)
                        mean == Div(Mean(g, "delay", x), n)
                        at(y) == Add(Sq(Div(MeanAt(g, "delay", y), n)), Sub(SquareAt(g, "delay", y), Sq(MeanAt(g, "delay", y))))
                    IN SdLn(mean, OfDemand(g, x, at(EDP)))
Ask ==
  \E c \in Pick(1..20) : \E x \in Pick(Ims) : \E y \in Pick(Edps) : \E i \in Pick(1..3) : \E e \in Pick(1..2) :
    LET g == m.groups[i]
        X == R(x)
    IN CASE c = 1 -> Asked("i", "crate", None, CollapseRate)
         [] c = 2 -> Asked("i", "drate", None, DemolitionRate)
         [] c \in 3..5 -> Asked(Name("e", e), "lam", R(y), DemandRate(e, R(y)))
         [] c = 6 -> Asked(Name("c", i), "ecostim", X, Mean(g, "cost", X))
         [] c = 7 -> Asked(Name("c", i), "sdcostim", X, SdLn(Mean(g, "cost", X), Square(g, "cost", X)))
         [] c = 8 -> Asked(Name("c", i), "edelayim", X, Mean(g, "delay", X))
         [] c = 9 -> UNCHANGED m /\ hist' = Append(hist, [op |-> "ask", o |-> Name("c", i), w |-> "sddelayim", x |-> X,
                                                             t |-> SdLn(Mean(g, "delay", X), Square(g, "delay", X)), found |-> DelayShare(g, X), n |-> g.n])
         [] c = 10 -> \E s \in Pick(1..Len(m.frag[g.f])) : Asked(Name("c", i), Name("pds", s), X, Reached(g, s, X))
         [] c = 11 -> \E s \in Pick(1..Len(m.frag[g.f])) : Asked(Name("c", i), Name("rate", s), None, StateRate(g, s))
         [] c = 12 -> Asked(Name("c", i), "annual", None, AnnualCost(g))
         [] c = 13 -> \E v \in Pick({<<1, 2>>, <<3, 1>>, <<20, 1>>}) : Asked(Name("c", i), "lamcost", R(v), CostRate(g, R(v)))
         [] c = 14 -> m.mem # <<>> /\ Asked("s", "cost", X, RepairMean(X))
         [] c = 15 -> m.mem # <<>> /\ Asked("s", "costsd", X, Sqrt(RepairVar(X)))
         [] c = 16 -> m.mem # <<>> /\ Asked("s", "total", X, TotalMean(X))
         [] c = 17 -> m.mem # <<>> /\ Asked("s", "totalsd", X, TotalSd(X))
         [] c = 18 -> m.mem # <<>> /\ (IF x[1] = 1 THEN Asked("s", "annual", None, AnnualMean) ELSE Asked("s", "annualsd", None, AnnualSd))
         [] c = 19 -> \E n \in Pick({1, 10, 50}) : m.mem # <<>> /\ Asked("s", Name("years", n), R(<<1, 20>>), Present(n, <<1, 20>>))
         [] c = 20 -> m.mem # <<>> /\ m.h.k # "loglog" /\ Asked("s", "pdf", X, Density(X))
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in Pick(1..9) : IF c <= 2 THEN Change ELSE Ask
           \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
