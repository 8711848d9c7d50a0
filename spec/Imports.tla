------------------------------- MODULE Imports -------------------------------
(* Functions read from files: a table with a line for every intensity, which *)
(* after two lines of headings lists either the rate at which it is exceeded *)
(* or the demands found in analyses at it, zero standing for a collapse.     *)
(*                                                                         *)
(* A demand's median at a listed intensity is the geometric mean of those    *)
(* analyses that did not collapse and its dispersion the sample deviation of *)
(* their logarithms; both grow linearly in between, from zero at zero, and   *)
(* stay what they are beyond the last line.  A rate is a power of the        *)
(* intensity between lines.                                                  *)
EXTENDS Terms, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES files,    \* what each file holds: its kind, headings, layout and lines
          defs,     \* what each name was last imported from (the table as it was then)
          hist
vars == <<files, defs, hist>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Files == {"a.txt", "b.csv", "c"}
Names == {"n1", "n2"}

(* --- the rules ------------------------------------------------------------ *)
RECURSIVE NonZero(_, _)
NonZero(l, n) == IF n = 0 THEN <<>> ELSE IF l[n][1] = 0 THEN NonZero(l, n - 1) ELSE Append(NonZero(l, n - 1), Ln(R(l[n])))
LogMean(l) == LET v == NonZero(l, Len(l)) IN Div(Sum(v), N(Len(v)))
Median(l) == Exp(LogMean(l))
Spread(l) == LET v == NonZero(l, Len(l)) IN
  Sqrt(Div(Sum([i \in 1..Len(v) |-> Sq(Sub(v[i], LogMean(l)))]), N(Len(v) - 1)))
(* linearly between the points <<x, value>>                                    *)
Between(a, b, fa, fb, x) == Add(fa, Mul(R(RDiv(RSub(x, a), RSub(b, a))), Sub(fb, fa)))
RECURSIVE Through(_, _, _, _)
Through(t, f, x, i) ==
  IF RLe(x, t[i].x) THEN Between(IF i = 1 THEN <<0, 1>> ELSE t[i - 1].x, t[i].x, IF i = 1 THEN N(0) ELSE f[i - 1], f[i], x)
  ELSE IF i = Len(t) THEN f[i] ELSE Through(t, f, x, i + 1)
DemandAt(t, x) == Dist(Ln(Through(t, [i \in 1..Len(t) |-> Median(t[i].l)], x, 1)), Through(t, [i \in 1..Len(t) |-> Spread(t[i].l)], x, 1))
LL(t, i, x) == LET l(r) == Ln(R(r)) IN
  Exp(Add(l(t[i].l[1]), Mul(Div(Sub(l(x), l(t[i].x)), Sub(l(t[i + 1].x), l(t[i].x))), Sub(l(t[i + 1].l[1]), l(t[i].l[1])))))
RECURSIVE Rate(_, _, _)
Rate(t, x, i) ==
  IF RLe(x, t[1].x) THEN R(t[1].l[1])
  ELSE IF i = Len(t) THEN R(t[i].l[1])
  ELSE IF RLe(x, t[i + 1].x) THEN LL(t, i, x) ELSE Rate(t, x, i + 1)

(* --- in rationals: a table of one analysis repeated ------------------------ *)
(* what is between two lines lies between what they say, and at a line is what *)
(* it says                                                                     *)
Tab == {<<a, b, c>> : a \in 0..3, b \in 0..3, c \in 0..3}
RECURSIVE Lin(_, _, _)
Lin(v, x, i) == IF RLe(x, <<i, 1>>) THEN LET p == IF i = 1 THEN <<0, 1>> ELSE <<v[i - 1], 1>> IN RAdd(p, RMul(RSub(x, <<i - 1, 1>>), RSub(<<v[i], 1>>, p)))
                ELSE IF i = 3 THEN <<v[3], 1>> ELSE Lin(v, x, i + 1)
InitSmall == files \in Tab /\ defs = 0 /\ hist = <<>>
SpecSmall == InitSmall /\ [][UNCHANGED vars]_vars
Inside(a, b, c) == (RLe(a, b) /\ RLe(b, c)) \/ (RLe(c, b) /\ RLe(b, a))
SmallOk == /\ \A i \in 1..3 : REq(Lin(files, <<i, 1>>, 1), <<files[i], 1>>)
           /\ \A i \in 2..3 : \A k \in 1..3 : Inside(<<files[i - 1], 1>>, Lin(files, <<4 * (i - 1) + k, 4>>, 1), <<files[i], 1>>)
           /\ REq(Lin(files, <<0, 1>>, 1), <<0, 1>>) /\ REq(Lin(files, <<7, 2>>, 1), <<files[3], 1>>)

(* --- behaviours ------------------------------------------------------------ *)
Xs == {<<<<1, 20>>, <<1, 4>>, <<1, 2>>, <<1, 1>>, <<5, 2>>>>, <<<<1, 10>>, <<3, 10>>, <<4, 5>>, <<3, 2>>, <<4, 1>>>>, <<<<1, 1>>, <<2, 1>>, <<3, 1>>, <<4, 1>>, <<9, 1>>>>}
Demands == {<<1, 1000>>, <<1, 400>>, <<1, 100>>, <<1, 35>>, <<1, 12>>, <<1, 3>>, <<6, 5>>}
Rates == <<<<2, 1>>, <<3, 10>>, <<1, 25>>, <<1, 900>>, <<1, 60000>>>>
(* collapses: c of the n analyses, wherever they stand; at least two are left *)
Row(n, c, o) == TLCEval([i \in 1..n |-> IF (i + o) % n < c THEN <<0, 1>> ELSE RandomElement(Demands)])
Rows(k, n, len, c) == IF k = "im" THEN TLCEval([i \in 1..len |-> <<Rates[i]>>])
                      ELSE TLCEval([i \in 1..len |-> Row(n, RandomElement(0..c), RandomElement(0..4))])
(* the layout: the sign between numbers, how they are written, blank lines and comments *)
Layouts == [sep : {" ", "\t", "   "}, form : {"%r", "%.12e", "%.15g"}, lead : {"", "  "}, blank : BOOLEAN, last : BOOLEAN]
Heads == {<<"T=1.5s", "IM, EDPs">>, <<"", "">>, <<"1 2 3", "4 5 6">>, <<"# a comment", "0 0 0 0">>}
Write == \E f \in Pick(Files) : \E k \in Pick({"probfn", "probfn", "im"}) : \E len \in Pick(2..5) : \E n \in Pick(2..6) : \E xs \in Pick(Xs) : \E c \in {IF n < 4 THEN n - 2 ELSE 2} :
         \E rows \in {Rows(k, n, len, c)} : \E lay \in Pick(Layouts) : \E hd \in Pick(Heads) :
  LET t == [kind |-> k, t |-> [i \in 1..len |-> [x |-> xs[i], l |-> rows[i]]]] IN
  /\ files' = [files EXCEPT ![f] = t] /\ UNCHANGED defs
  /\ hist' = Append(hist, [op |-> "write", f |-> f, t |-> [i \in 1..len |-> [x |-> R(xs[i]), l |-> [j \in 1..Len(rows[i]) |-> R(rows[i][j])]]], lay |-> lay, head |-> hd])
Readable == {f \in Files : files[f].kind # "none"}
Import == \E f \in Pick(Readable) : \E n \in Pick(Names) : \E how \in Pick({"call", "script"}) :
  LET k == files[f].kind IN
  /\ defs' = [defs EXCEPT ![k][n] = files[f].t] /\ UNCHANGED files
  /\ hist' = Append(hist, [op |-> "import", f |-> f, n |-> n, k |-> k, how |-> how])
Points == {<<1, 100>>, <<1, 20>>, <<1, 10>>, <<7, 40>>, <<1, 4>>, <<2, 5>>, <<4, 5>>, <<1, 1>>, <<13, 10>>, <<2, 1>>, <<5, 2>>, <<7, 2>>, <<6, 1>>, <<20, 1>>}
Defined == {<<k, n>> \in {"im", "probfn"} \X Names : defs[k][n] # <<>>}
Ask == \E d \in Pick(Defined) : \E x \in Pick(Points) :
  LET t == defs[d[1]][d[2]]
      q == DemandAt(t, x)
  IN /\ UNCHANGED <<files, defs>>
     /\ hist' = Append(hist, [op |-> "ask", k |-> d[1], n |-> d[2], x |-> R(x),
                              v |-> IF d[1] = "im" THEN <<Rate(t, x, 1)>> ELSE <<MedianOf(q), q.sg, MeanOf(q)>>])
Init == /\ files = [f \in Files |-> [kind |-> "none", t |-> <<>>]] /\ defs = [k \in {"im", "probfn"} |-> [n \in Names |-> <<>>]] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in Pick(1..10) : IF Readable = {} \/ c = 1 THEN Write ELSE IF Defined = {} \/ c \in 2..3 THEN Import ELSE Ask
           \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
