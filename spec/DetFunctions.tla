-------------------------- MODULE DetFunctions -----------------------------
(* Deterministic functions: power laws, hyperbolic laws and tables (linear *)
(* and log-log), evaluated in any order, any number of times, from several *)
(* threads: the answer depends on the definition and the argument only.    *)
EXTENDS Terms, TLC, Json, FiniteSets
CONSTANTS Depth, MaxPoints
VARIABLES fns, hist
vars == <<fns, hist>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

(* --- the definitions --------------------------------------------------- *)
(* the rational value of a linear table *)
RECURSIVE Segment(_, _, _)
Segment(f, x, i) == IF RLe(x, f.xs[i + 1]) THEN i ELSE Segment(f, x, i + 1)
Linear(f, x) ==
  LET n == Len(f.xs) IN
  IF RLe(x, f.xs[1]) THEN f.ys[1]
  ELSE IF RLe(f.xs[n], x) THEN f.ys[n]
  ELSE LET i == Segment(f, x, 1)
           t == RDiv(RSub(x, f.xs[i]), RSub(f.xs[i + 1], f.xs[i]))
       IN RAdd(f.ys[i], RMul(t, RSub(f.ys[i + 1], f.ys[i])))
LogLog(f, x) ==
  LET n == Len(f.xs) IN
  IF RLe(x, f.xs[1]) THEN R(f.ys[1])
  ELSE IF RLe(f.xs[n], x) THEN R(f.ys[n])
  ELSE LET i == Segment(f, x, 1)
           l(r) == Ln(R(r))
           t == Div(Sub(l(x), l(f.xs[i])), Sub(l(f.xs[i + 1]), l(f.xs[i])))
       IN Exp(Add(l(f.ys[i]), Mul(t, Sub(l(f.ys[i + 1]), l(f.ys[i])))))
Value(f, x) ==
  CASE f.k = "plc" -> Mul(R(f.a), Pow(R(x), R(f.b)))
    [] f.k = "nlh" -> IF RLe(f.b, x) THEN N(0)
                      ELSE IF x[1] = 0 THEN R(f.a)
                      ELSE Mul(R(f.a), Exp(Div(R(f.c), Ln(Div(R(x), R(f.b))))))
    [] f.k = "lin" -> R(Linear(f, x))
    [] f.k = "loglog" -> LogLog(f, x)

(* --- what the definitions amount to (checked by TLC on small tables) ---- *)
Between(a, b, c) == (RLe(a, b) /\ RLe(b, c)) \/ (RLe(c, b) /\ RLe(b, a))
TableOk(f) == /\ \A i \in 1..Len(f.xs) : REq(Linear(f, f.xs[i]), f.ys[i])
              /\ \A i \in 1..(Len(f.xs) - 1) : \A q \in {<<1, 4>>, <<1, 2>>, <<5, 7>>} :
                   LET x == RAdd(f.xs[i], RMul(q, RSub(f.xs[i + 1], f.xs[i])))
                   IN /\ Between(f.ys[i], Linear(f, x), f.ys[i + 1])
                      \* equal ratios: on the chord
                      /\ REq(RMul(RSub(Linear(f, x), f.ys[i]), RSub(f.xs[i + 1], f.xs[i])),
                             RMul(RSub(x, f.xs[i]), RSub(f.ys[i + 1], f.ys[i])))
              /\ REq(Linear(f, RSub(f.xs[1], <<1, 1>>)), f.ys[1])
              /\ REq(Linear(f, RAdd(f.xs[Len(f.xs)], <<3, 1>>)), f.ys[Len(f.ys)])
SmallXs == {<<0, 1>>, <<1, 2>>, <<1, 1>>, <<5, 2>>, <<4, 1>>}
SmallYs == {<<0, 1>>, <<1, 3>>, <<2, 1>>}
Increasing(s) == \A i \in 1..(Len(s) - 1) : RLt(s[i], s[i + 1])
SmallTables == {[k |-> "lin", xs |-> xs, ys |-> ys] :
                  xs \in {s \in [1..3 -> SmallXs] : Increasing(s)}, ys \in [1..3 -> SmallYs]}
(* one behaviour per table *)
InitSmall == fns \in {<<t>> : t \in SmallTables} /\ hist = <<>>
SpecSmall == InitSmall /\ [][UNCHANGED vars]_vars
SmallOk == TableOk(fns[1])

(* --- behaviours for replay ---------------------------------------------- *)
RECURSIVE Cumulate(_, _)
Cumulate(steps, from) == IF steps = <<>> THEN <<>>
                         ELSE LET x == RAdd(from, steps[1]) IN <<x>> \o Cumulate(Tail(steps), x)
Steps == {<<1, 1>>, <<1, 5>>, <<1, 2>>, <<3, 4>>, <<2, 1>>, <<1, 50>>}
Ys == {<<0, 1>>, <<1, 40>>, <<1, 4>>, <<1, 2>>, <<1, 1>>, <<3, 2>>, <<8, 1>>, <<60, 1>>}
Table(k) ==
  \E n \in Pick((2..MaxPoints) \cup {3 * MaxPoints + 13}) : \E s \in {[i \in 1..n |-> RandomElement(Steps)]} : \E x0 \in Pick({<<0, 1>>, <<1, 10>>, <<3, 1>>}) :
  \E y \in {[i \in 1..n |-> RandomElement(IF k = "loglog" THEN Ys \ {<<0, 1>>} ELSE Ys)]} :
    LET xs == Cumulate(s, x0) IN
    /\ fns' = Append(fns, [k |-> k, xs |-> xs, ys |-> y])
    /\ hist' = Append(hist, [op |-> "def", i |-> Len(fns) + 1, k |-> k, xs |-> xs, ys |-> y])
Law(k) ==
  \E a \in Pick({<<1, 1000>>, <<1, 4>>, <<1, 1>>, <<1221, 1>>}) :
  \E b \in Pick(IF k = "plc" THEN {<<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<3, 1>>} ELSE {<<1, 2>>, <<2, 1>>, <<30, 1>>}) :
  \E c \in Pick({<<1, 2>>, <<5, 1>>, <<62, 1>>}) :
    /\ fns' = Append(fns, [k |-> k, a |-> a, b |-> b, c |-> c])
    /\ hist' = Append(hist, [op |-> "def", i |-> Len(fns) + 1, k |-> k, a |-> a, b |-> b, c |-> c])
Define == \E k \in Pick({"plc", "nlh", "lin", "lin", "loglog", "loglog"}) : \E w \in Pick(1..3) :
            IF k \in {"lin", "loglog"} THEN Table(k) ELSE IF w = 1 THEN Law(k) ELSE Table("lin")
(* points of interest: tabulated ones, ones in between, the end values and *)
(* beyond                                                                   *)
TablePoint(f, n) == LET i == RandomElement(1..Len(f.xs)) IN
  CASE n <= 3 -> f.xs[i]
    [] n \in 4..7 -> IF i = Len(f.xs) THEN f.xs[1]
                     ELSE RAdd(f.xs[i], RMul(RandomElement({<<1, 2>>, <<1, 3>>, <<1, 16>>, <<9, 10>>}), RSub(f.xs[i + 1], f.xs[i])))
    [] n = 8 -> RMul(f.xs[1], RandomElement({<<0, 1>>, <<1, 2>>}))
    [] n = 9 -> RAdd(f.xs[Len(f.xs)], RandomElement({<<1, 100>>, <<7, 1>>}))
    [] n = 10 -> f.xs[Len(f.xs)]
LawPoint(f, n) == IF n = 1 THEN f.b ELSE RandomElement({<<0, 1>>, <<1, 100>>, <<1, 10>>, <<2, 5>>, <<1, 1>>, <<3, 2>>, <<4, 1>>, <<29, 1>>})
Point(f) == IF f.k \in {"lin", "loglog"} THEN TablePoint(f, RandomElement(1..10)) ELSE LawPoint(f, RandomElement(1..6))
Ask(op) == \E i \in Pick(1..Len(fns)) : \E n \in Pick(1..6) : \E ps \in {[j \in 1..n |-> Point(fns[i])]} :
    /\ UNCHANGED fns
    /\ hist' = Append(hist, [op |-> op, i |-> i, x |-> [j \in 1..n |-> R(ps[j])], want |-> [j \in 1..n |-> Value(fns[i], ps[j])]])
Init == fns = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in Pick(1..10) : IF Len(fns) = 0 \/ (c <= 2 /\ Len(fns) < 6) THEN Define
                                     ELSE IF c = 3 THEN Ask("threads") ELSE Ask("ask")
           \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
