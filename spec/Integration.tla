--------------------------- MODULE Integration ---------------------------
(* Integration over [0, oo): the settings, the search for something to     *)
(* integrate, the adaptive subdivision and the statistics.                 *)
(*                                                                         *)
(* The integrand is discovered as it is evaluated: each evaluation at a    *)
(* point not met before picks a value.  Points are t = 1/(1+x) in units of *)
(* 1/N.  A value f is given as g = f / t^2 (at t = 0, g = f), a whole      *)
(* number of ones (b) and of imperceptibly small quantities (z, which the  *)
(* search ignores, but which are not zero), or not a number (b = -1).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,            \* a power of two
          Ones, Tinies, \* what the integrand can be
          Tolerances,   \* pairs <<numerator, denominator>>, at most 1/2
          EvalLimits, SearchLimits,
          Lazy,         \* one random choice at a time (simulation)
          Ops           \* operations in a history
VARIABLES set,    \* the settings: [tol, eval, search, method]
          stats,
          tbl,    \* the integrand, where it has been evaluated: <<t, [b, z]>>
          s,      \* the search: [at, n, ...]
          w,      \* the integration: [stack, done, sum, count]
          phase,  \* "idle" "search" "low" "high" "refine" "ends" "work"
          hist
vars == <<set, stats, tbl, s, w, phase, hist>>
Pick(S) == IF S = {} THEN {} ELSE IF Lazy THEN {RandomElement(S)} ELSE S
Methods == {"binary", "reverse", "lowfirst", "scattered", "directed"}
Default == [tol |-> <<1, 1000>>, eval |-> 2048, search |-> 2048, method |-> "directed"]
Zeroes == [calls |-> 0, successes |-> 0, nans |-> 0, fails |-> 0, nothing |-> 0, maxInt |-> 0, totInt |-> 0, maxSearch |-> 0, totSearch |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
None == [m |-> "none"]

(* ---- values ---- *)
NaN == [b |-> -1, z |-> 0]
Zero == [b |-> 0, z |-> 0]
IsNaN(g) == g.b = -1
Above(g) == g.b > 0                 \* perceptibly above zero
Nil(g) == g.b = 0 /\ g.z = 0
(* f(t) <= f(u), of values that are not perceptible *)
TinyLeq(g, t, h, u) == g.z * t * t <= h.z * u * u
TinyLess(g, t, h, u) == g.z * t * t < h.z * u * u
Known(t) == \E i \in 1..Len(tbl) : tbl[i][1] = t
At(t) == tbl[CHOOSE i \in 1..Len(tbl) : tbl[i][1] = t][2]
Numbers == {[b |-> x, z |-> 0] : x \in Ones \cup {0}} \cup {[b |-> 0, z |-> y] : y \in Tinies}
           \cup {[b |-> x, z |-> y] : x \in {16} \cap Ones, y \in Tinies}
(* mostly nothing during a search, so that searches get somewhere *)
SearchValues(t) == IF Known(t) THEN {At(t)}
                   \* where the points get too close together, something is found
                   ELSE IF Lazy /\ (8 * s.iv >= N \/ (phase = "refine" /\ s.b - s.a <= 16)) THEN {g \in Numbers : Above(g)}
                   ELSE IF Lazy THEN (IF RandomElement(1..s.rare) = 1 THEN Numbers \ {Zero} ELSE {Zero})
                   ELSE Numbers
With(t, g) == IF Known(t) THEN tbl ELSE Append(tbl, <<t, g>>)

(* ---- settings ---- *)
Say(op, r) == hist' = Append(hist, [op |-> op, r |-> r, set |-> set', stats |-> stats'])
Idle == phase = "idle" /\ Len(hist) < Ops
Change(op, to) == /\ Idle /\ set' = to /\ UNCHANGED <<stats, tbl, s, w, phase>> /\ Say(op, None)
SetTol == \E t \in Pick(Tolerances) : Change([o |-> "tol", v |-> t], [set EXCEPT !.tol = t])
SetEval == \E v \in Pick(EvalLimits) : Change([o |-> "eval", v |-> v], [set EXCEPT !.eval = v])
SetSearch == \E v \in Pick(SearchLimits) : Change([o |-> "search", v |-> v], [set EXCEPT !.search = v])
SetMethod == \E m \in Pick(Methods) : Change([o |-> "method", v |-> m], [set EXCEPT !.method = m])
(* not positive: ignored *)
Refused == \E k \in Pick({<<"tol", <<0, 1>>>>, <<"tol", <<-1, 100>>>>, <<"tol", <<0, 0>>>>, <<"eval", 0>>, <<"search", 0>>}) :
              Change([o |-> k[1], v |-> k[2]], set)
DefaultTol == Change([o |-> "deftol"], [set EXCEPT !.tol = Default.tol])
DefaultEval == Change([o |-> "defeval"], [set EXCEPT !.eval = Default.eval])
ResetSettings == Change([o |-> "reset"], Default)
ResetStats == /\ Idle /\ stats' = Zeroes /\ UNCHANGED <<set, tbl, s, w, phase>> /\ Say([o |-> "resetstats"], None)

(* ---- one integration ---- *)
Start == /\ Idle
         /\ \E r \in Pick(IF Lazy THEN 1..12 ELSE {1}) : \E q \in Pick(IF Lazy THEN {4, 6, 7, 8, 9} ELSE {1}) : s' = [at |-> N, n |-> 0, rare |-> r, smooth |-> q, iv |-> 0, i |-> 0, p |-> 0, k |-> 0, c |-> N \div 2, fc |-> Zero, a |-> 0, b |-> N]
         /\ tbl' = <<>> /\ phase' = "search" /\ w' = [stack |-> <<>>, acc |-> {}, sum |-> Zero, count |-> 0]
         /\ stats' = [stats EXCEPT !.calls = @ + 1]
         /\ UNCHANGED <<set, hist>>
Points == [i \in 1..Len(tbl) |-> [t |-> tbl[i][1], b |-> tbl[i][2].b, z |-> tbl[i][2].z]]
(* 15 * 6 * N times the integral, in ones and imperceptible quantities *)
Outcome(kind, n) == [m |-> kind, n |-> n, b |-> IF kind = "ok" THEN w'.sum.b ELSE 0, z |-> IF kind = "ok" THEN w'.sum.z ELSE 0]
Finish(kind, n) == /\ phase' = "idle"
                   /\ Say([o |-> "integrate", f |-> [i \in 1..Len(tbl') |-> [t |-> tbl'[i][1], b |-> tbl'[i][2].b, z |-> tbl'[i][2].z]]], Outcome(kind, n))
Searched(st, n) == [st EXCEPT !.totSearch = @ + n, !.maxSearch = Max(@, n)]
(* the search gives up *)
GiveUp(n) == /\ stats' = [Searched(stats, n) EXCEPT !.nothing = @ + 1]
             /\ w' = w /\ Finish("nothing", n)
(* the search has found the range [a, b] *)
Found(a, b, n) == /\ stats' = Searched(stats, n)
                  /\ s' = [s EXCEPT !.a = a, !.b = b, !.n = n] /\ phase' = "ends" /\ w' = [w EXCEPT !.count = n]
                  /\ UNCHANGED hist
(* the range around a point *)
Left(c) == IF 2 * c < N THEN 0 ELSE 2 * c - N
Right(c) == IF 2 * c < N THEN 2 * c ELSE N
Hit(g) == IF set.method = "directed" THEN ~Nil(g) ELSE Above(g)

(* Where each search looks next.  Every search starts with x = 0 and x = 1; *)
(* what is not a number there ends it: there is something to integrate.     *)
FirstValues(t) == IF ~Lazy THEN Numbers \cup {NaN} ELSE IF RandomElement(1..40) = 1 THEN {NaN} ELSE SearchValues(t)
First == /\ phase = "search" /\ s.n = 0
         /\ \E g \in Pick(FirstValues(N)) : \E h \in Pick(FirstValues(N \div 2)) :
              /\ tbl' = <<<<N, g>>, <<N \div 2, h>>>>
              /\ UNCHANGED set
              /\ CASE Above(g) \/ Above(h) \/ IsNaN(g) \/ IsNaN(h) -> Found(0, N, 2)
                   [] set.method = "directed" /\ ~Nil(h) ->   \* something, if imperceptible: start from there
                        /\ s' = [s EXCEPT !.n = 2, !.c = N \div 2, !.fc = h, !.a = 0, !.b = N] /\ phase' = "refine" /\ UNCHANGED <<stats, w, hist>>
                   [] OTHER -> /\ s' = [s EXCEPT !.n = 2, !.iv = 4, !.i = 1] /\ phase' = (IF set.method = "lowfirst" THEN "low" ELSE "search")
                               /\ UNCHANGED <<stats, w, hist>>
Representable(i, iv) == i * (N \div iv) * iv = i * N /\ iv <= N
(* the binary searches: every second multiple of 1/iv, then half that      *)
BinaryPoint(lo) == IF set.method = "binary" THEN s.i * (N \div s.iv) ELSE N - s.i * (N \div s.iv)
Sweep(from, below(_), limit, next) ==
  /\ UNCHANGED set
  /\ IF s.i = from /\ s.n >= limit THEN next
     ELSE /\ s.iv <= N
          /\ LET t == BinaryPoint(0)
             IN \E g \in Pick(SearchValues(t)) :
                  /\ tbl' = With(t, g)
                  /\ IF Above(g) THEN Found(t - N \div s.iv, t + N \div s.iv, s.n + 1)
                     ELSE /\ s' = [s EXCEPT !.n = @ + 1, !.i = IF s.i + 2 < below(s.iv) THEN s.i + 2 ELSE (IF phase = "high" THEN 1 + s.iv ELSE 1),
                                            !.iv = IF s.i + 2 < below(s.iv) THEN s.iv ELSE 2 * s.iv]
                          /\ UNCHANGED <<stats, w, phase, hist>>
NoMore == s' = s /\ tbl' = tbl /\ GiveUp(s.n)
Binary == /\ phase = "search" /\ s.n >= 2 /\ set.method \in {"binary", "reverse"}
          /\ LET below(iv) == iv IN Sweep(1, below, set.search, NoMore)
Low == /\ phase = "low"
       /\ LET below(iv) == iv \div 2 IN
          Sweep(1, below, set.search \div 2, /\ s' = [s EXCEPT !.iv = 4, !.i = 3] /\ phase' = "high" /\ UNCHANGED <<stats, tbl, w, hist>>)
High == /\ phase = "high"
        /\ LET below(iv) == iv IN Sweep(1 + s.iv \div 2, below, set.search, NoMore)
(* the scattered searches *)
Scattered ==
  /\ phase = "search" /\ s.n >= 2 /\ set.method \in {"scattered", "directed"}
  /\ UNCHANGED set
  /\ IF s.n >= set.search THEN NoMore
     ELSE IF s.i >= s.iv THEN /\ s' = [s EXCEPT !.iv = 2 * @, !.i = 1] /\ UNCHANGED <<stats, tbl, w, phase, hist>>
     ELSE /\ s.iv <= N
          /\ LET t == N - s.i * (N \div s.iv)
             IN \E g \in Pick(SearchValues(t)) :
                  /\ tbl' = With(t, g)
                  /\ IF ~Hit(g)
                     THEN /\ s' = [s EXCEPT !.n = @ + 1, !.i = IF s.i = 1 THEN 1 + 2 + 2 * s.k ELSE s.i + 2 * s.p,
                                            !.p = IF s.i = 1 THEN 2 + 2 * s.k ELSE 2 * s.p, !.k = IF s.i = 1 THEN @ + 2 ELSE @]
                          /\ UNCHANGED <<stats, w, phase, hist>>
                     ELSE IF set.method = "scattered" \/ Above(g) THEN Found(Left(t), Right(t), s.n + 1)
                     ELSE /\ s' = [s EXCEPT !.n = @ + 1, !.c = t, !.fc = g, !.a = Left(t), !.b = Right(t)] /\ phase' = "refine"
                          /\ UNCHANGED <<stats, w, hist>>
(* the directed search climbs from what it has found *)
Refine ==
  /\ phase = "refine"
  /\ UNCHANGED set
  /\ IF s.n >= set.search THEN tbl' = tbl /\ Found(Left(s.c), Right(s.c), s.n)
     ELSE /\ (s.a + s.c) % 2 = 0 /\ (s.c + s.b) % 2 = 0
          /\ LET d == (s.a + s.c) \div 2
             IN \E g \in Pick(SearchValues(d)) :
                 LET t1 == With(d, g)
                     s1 == IF TinyLeq(g, d, s.fc, s.c) THEN [s EXCEPT !.a = d] ELSE [s EXCEPT !.b = s.c, !.c = d, !.fc = g]
                     e == (s1.c + s1.b) \div 2
                     known == \E i \in 1..Len(t1) : t1[i][1] = e
                 IN IF Above(g) THEN tbl' = t1 /\ Found(Left(d), Right(d), s.n + 1)
                    ELSE /\ (s1.c + s1.b) % 2 = 0
                         /\ \E h \in Pick(IF known THEN {t1[CHOOSE i \in 1..Len(t1) : t1[i][1] = e][2]} ELSE SearchValues(e)) :
                              /\ tbl' = IF known THEN t1 ELSE Append(t1, <<e, h>>)
                              /\ IF Above(h) THEN Found(Left(e), Right(e), s.n + 2)
                                 ELSE /\ s' = (IF TinyLess(h, e, s1.fc, s1.c) THEN [s1 EXCEPT !.b = e, !.n = s.n + 2]
                                               ELSE [s1 EXCEPT !.a = s1.c, !.c = e, !.fc = h, !.n = s.n + 2])
                                      /\ UNCHANGED <<stats, w, phase, hist>>

(* ---- the integration proper ---- *)
Values(t) == IF Known(t) THEN {At(t)} ELSE IF Lazy /\ RandomElement(1..60) = 1 THEN {NaN} ELSE IF Lazy THEN Numbers ELSE Numbers \cup {NaN}
Plus(g, h) == [b |-> g.b + h.b, z |-> g.z + h.z]
Minus(g, h) == [b |-> g.b - h.b, z |-> g.z - h.z]
Times(k, g) == [b |-> k * g.b, z |-> k * g.z]
(* Simpson's rule, times 6 N *)
Quad(a, b, ga, gb, gc) == Times(b - a, Plus(Plus(ga, gb), Times(4, gc)))
BadValue(n) == /\ stats' = [stats EXCEPT !.nans = @ + 1, !.totInt = @ + n]
               /\ w' = w /\ Finish("nan", n)
Ends == /\ phase = "ends"
        /\ (s.a + s.b) % 2 = 0
        /\ UNCHANGED <<set, s>>
        /\ \E ga \in Pick(Values(s.a)) : \E gb \in Pick(Values(s.b)) : \E gc \in Pick(Values((s.a + s.b) \div 2)) :
             LET c == (s.a + s.b) \div 2
                 t1 == With(s.a, ga)
                 t2 == IF \E i \in 1..Len(t1) : t1[i][1] = s.b THEN t1 ELSE Append(t1, <<s.b, gb>>)
                 t3 == IF \E i \in 1..Len(t2) : t2[i][1] = c THEN t2 ELSE Append(t2, <<c, gc>>)
             IN /\ tbl' = t3
                /\ IF IsNaN(ga) \/ IsNaN(gb) \/ IsNaN(gc) THEN BadValue(w.count)
                   ELSE /\ w' = [w EXCEPT !.count = @ + 3, !.stack = <<[a |-> s.a, b |-> s.b, ga |-> ga, gb |-> gb, gc |-> gc]>>]
                        /\ phase' = "work" /\ UNCHANGED <<stats, hist>>
(* |d| <= tol * q, where d and q count in the same unit: TRUE, FALSE, or   *)
(* too close to call                                                       *)
Abs(x) == IF x < 0 THEN -x ELSE x
Within(d, q) == LET l == Abs(d.b) * set.tol[2] r == set.tol[1] * q.b
                    lz == Abs(d.z) * set.tol[2] rz == set.tol[1] * q.z
                IN IF d.b = 0 /\ q.b > 0 THEN "yes"
                   ELSE IF d.b = 0 /\ q.b = 0 THEN (IF d.z = 0 \/ lz < rz THEN "yes" ELSE IF lz = rz THEN "tie" ELSE "no")
                   ELSE IF l < r THEN "yes" ELSE IF l = r THEN "tie" ELSE "no"
Judgement(t, ga, gb, gc, a, b, gd, ge) ==
    LET c == (a + b) \div 2
        q1 == Quad(a, b, ga, gb, gc)
        q2 == Plus(Quad(a, c, ga, gc, gd), Quad(c, b, gc, gb, ge))
        d == Minus(q2, q1)
        x == Within(d, q2) y == Within(Times(15, d), w.sum)
    IN IF x = "yes" \/ y = "yes" THEN "accept" ELSE IF x = "tie" \/ y = "tie" THEN "tie" ELSE "split"
Over == /\ phase = "work" /\ w.stack # <<>> /\ w.count + 1 > set.eval
        /\ UNCHANGED <<set, s, tbl, w>>
        /\ stats' = [stats EXCEPT !.fails = @ + 1, !.maxInt = Max(@, w.count + 1), !.totInt = @ + w.count + 1]
        /\ Finish("over", w.count + 1)
Work ==
  /\ phase = "work" /\ w.stack # <<>> /\ w.count + 1 <= set.eval
  /\ UNCHANGED <<set, s>>
  /\ LET r == w.stack[Len(w.stack)]
         c == (r.a + r.b) \div 2 d == (r.a + c) \div 2 e == (c + r.b) \div 2
         rest == SubSeq(w.stack, 1, Len(w.stack) - 1)
         judge(gd, ge) == IF IsNaN(gd) \/ IsNaN(ge) THEN "nan" ELSE Judgement(0, r.ga, r.gb, r.gc, r.a, r.b, gd, ge)
         deep == r.b - r.a < 8 /\ w.count + 2 <= set.eval
         any == Values(d) \X Values(e)
         \* values that agree with what is known of the region
         mid == Plus(Plus(r.ga, r.gb), Times(6, r.gc))
         fit(x, i, j) == <<x \div 8 + i, x \div 4 - x \div 8 - i + j>>
         near == {<<[b |-> fit(mid.b, i, j)[1], z |-> fit(mid.z, k, 0)[1]], [b |-> fit(mid.b, i, j)[2], z |-> fit(mid.z, k, 0)[2]]>> : i \in -2..2, j \in -1..1, k \in -1..1}
         fits == {v \in near : v[1].b >= 0 /\ v[2].b >= 0 /\ v[1].z >= 0 /\ v[2].z >= 0
                               /\ (Known(d) => v[1] = At(d)) /\ (Known(e) => v[2] = At(e))}
         smooth == {v \in fits : judge(v[1], v[2]) = "accept"}
         sound == {v \in any : LET x == judge(v[1], v[2]) IN x \in {"nan", "accept"} \/ (x = "split" /\ ~deep)}
         broken == {v \in {NaN, Zero} \X {NaN, Zero} : (IsNaN(v[1]) \/ IsNaN(v[2])) /\ (Known(d) => v[1] = At(d)) /\ (Known(e) => v[2] = At(e))}
     IN /\ (r.b - r.a) % 4 = 0
        /\ \E v \in (IF ~Lazy THEN sound ELSE IF (deep \/ RandomElement(1..10) <= s.smooth) /\ smooth # {} THEN Pick(smooth)
                       ELSE IF deep THEN Pick(broken) ELSE Pick(sound)) :
             LET gd == v[1] ge == v[2]
                 t1 == With(d, gd)
                 t2 == IF \E i \in 1..Len(t1) : t1[i][1] = e THEN t1 ELSE Append(t1, <<e, ge>>)
                 q2 == Plus(Quad(r.a, c, r.ga, r.gc, gd), Quad(c, r.b, r.gc, r.gb, ge))
                 q1 == Quad(r.a, r.b, r.ga, r.gb, r.gc)
                 lower == [a |-> r.a, b |-> c, ga |-> r.ga, gb |-> r.gc, gc |-> gd]
                 upper == [a |-> c, b |-> r.b, ga |-> r.gc, gb |-> r.gb, gc |-> ge]
                 r2 == Quad(r.a, c, r.ga, r.gc, gd) r3 == Quad(c, r.b, r.gc, r.gb, ge)
                 bigger == r2.b > r3.b \/ (r2.b = 0 /\ r3.b = 0 /\ r2.z > r3.z)
             IN /\ tbl' = t2
                /\ IF IsNaN(gd) \/ IsNaN(ge) THEN BadValue(w.count + 1)
                   ELSE /\ IF Judgement(0, r.ga, r.gb, r.gc, r.a, r.b, gd, ge) = "accept"
                           THEN w' = [w EXCEPT !.count = @ + 1, !.stack = rest, !.acc = @ \cup {<<r.a, r.b>>},
                                               !.sum = Plus(@, Plus(Times(15, q2), Minus(q2, q1)))]
                           ELSE w' = [w EXCEPT !.count = @ + 1, !.stack = IF bigger THEN rest \o <<upper, lower>> ELSE rest \o <<lower, upper>>]
                        /\ UNCHANGED <<stats, hist, phase>>
Done == /\ phase = "work" /\ w.stack = <<>>
        /\ UNCHANGED <<set, s, tbl, w>>
        /\ stats' = [stats EXCEPT !.successes = @ + 1, !.maxInt = Max(@, w.count), !.totInt = @ + w.count]
        /\ Finish("ok", w.count)
(* An integrand that is zero everywhere, whatever the limits. *)
RECURSIVE Sweeps(_, _, _)
Sweeps(n, size, limit) == IF n >= limit THEN n ELSE Sweeps(n + size, 2 * size, limit)
ZeroEvals(m, limit) == CASE m \in {"binary", "reverse"} -> Sweeps(2, 2, limit)
                         [] m = "lowfirst" -> Sweeps(Sweeps(2, 1, limit \div 2), 1, limit)
                         [] OTHER -> Max(2, limit)
Nothing == /\ Idle
           /\ LET n == ZeroEvals(set.method, set.search)
              IN /\ stats' = [Searched([stats EXCEPT !.calls = @ + 1], n) EXCEPT !.nothing = @ + 1]
                 /\ UNCHANGED <<set, tbl, s, w, phase>> /\ Say([o |-> "integrate", f |-> <<>>], [m |-> "nothing", n |-> n, b |-> 0, z |-> 0])

Step == First \/ Binary \/ Low \/ High \/ Scattered \/ Refine \/ Ends \/ Over \/ Work \/ Done
Configure == SetTol \/ SetEval \/ SetSearch \/ SetMethod \/ Refused \/ DefaultTol \/ DefaultEval \/ ResetSettings
Init == /\ set = Default /\ stats = Zeroes /\ tbl = <<>> /\ s = [at |-> 0] /\ w = [stack |-> <<>>, acc |-> {}, sum |-> Zero, count |-> 0]
        /\ phase = "idle" /\ hist = <<>>
(* any order of everything *)
Next == IF phase # "idle" THEN Step
        ELSE IF ~Lazy THEN Configure \/ ResetStats \/ Start \/ Nothing
        ELSE \E k \in Pick(1..26) :
             CASE k = 1 -> SetTol [] k \in 21..23 -> SetMethod [] k = 2 -> SetEval [] k \in {3, 4} -> SetSearch [] k \in {5, 6, 7} -> SetMethod
               [] k = 8 -> Refused [] k = 9 -> DefaultTol [] k = 10 -> DefaultEval [] k = 11 -> (IF RandomElement(1..2) = 1 THEN ResetSettings ELSE Refused)
               [] k = 12 -> (IF RandomElement(1..2) = 1 THEN ResetStats ELSE Nothing) [] k = 13 -> SetSearch [] k = 14 -> SetEval [] OTHER -> Start
Spec == Init /\ [][Next]_vars
Emit == (phase = "idle" /\ Len(hist) = Ops) => PrintT("@@" \o ToJson(hist))
(* settings once, then integrations only: for concurrent integrations *)
BatchNext == IF phase # "idle" THEN Step
             ELSE IF hist = <<>> THEN /\ \E m \in Pick(Methods) : \E t \in Pick(Tolerances) : \E e \in Pick(EvalLimits) : \E f \in Pick(SearchLimits) :
                                            set' = [tol |-> t, eval |-> e, search |-> f, method |-> m]
                                      /\ UNCHANGED <<stats, tbl, s, w, phase>> /\ Say([o |-> "all"], None)
             ELSE IF Lazy THEN (IF RandomElement(1..8) = 1 THEN Nothing ELSE Start) ELSE Nothing \/ Start
ConfigureSpec == Init /\ [][Configure \/ ResetStats]_vars
BatchSpec == Init /\ [][BatchNext]_vars

(* ---- what the statistics and the integration guarantee (TLC) ---- *)
Busy == IF phase = "idle" THEN 0 ELSE 1
Accounted == stats.successes + stats.nans + stats.fails + stats.nothing + Busy = stats.calls
NotNegative == \A k \in DOMAIN stats : stats[k] >= 0
Last == hist[Len(hist)]
WithinBudget == phase = "work" => w.count <= Max(set.eval, s.n + 3)
SearchBudget == phase \in {"search", "low", "high", "refine", "ends"} /\ "n" \in DOMAIN s =>
    s.n <= Max(2, IF set.method \in {"scattered"} THEN set.search ELSE IF set.method = "directed" THEN set.search + 1 ELSE 2 * set.search)
(* what has been accepted and what is still to do tile the range *)
Regions == w.acc \cup {<<w.stack[i].a, w.stack[i].b>> : i \in 1..Len(w.stack)}
Tiled == phase = "work" =>
    /\ \A x \in Regions : \A y \in Regions : x = y \/ x[2] <= y[1] \/ y[2] <= x[1]
    /\ Cardinality(Regions) = Cardinality(w.acc) + Len(w.stack)
    /\ \A t \in s.a..(s.b - 1) : \E x \in Regions : x[1] <= t /\ t < x[2]
    /\ \A x \in Regions : s.a <= x[1] /\ x[2] <= s.b
(* nothing is reported only of an integrand that was never seen above zero *)
NothingSeen == (hist # <<>> /\ Last.op.o = "integrate" /\ Last.r.m = "nothing") =>
    /\ \A i \in 1..Len(Last.op.f) : ~Above([b |-> Last.op.f[i].b, z |-> Last.op.f[i].z])
    /\ Last.r.n >= Last.set.search
    /\ Last.r.n = ZeroEvals(Last.set.method, Last.set.search)
RangeSound == phase \in {"ends", "work"} => 0 <= s.a /\ s.a < s.b /\ s.b <= N
ValidSettings == set.tol[1] > 0 /\ set.tol[2] > 0 /\ set.eval > 0 /\ set.search > 0 /\ set.method \in Methods
OneAtATime == [][Cardinality({k \in DOMAIN set : set'[k] # set[k]}) <= 1 \/ set' = Default]_vars
=============================================================================
