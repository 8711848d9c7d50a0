------------------------------- MODULE Terms -------------------------------
(* Real-valued expressions, written by the specifications and evaluated    *)
(* when a behaviour is replayed (vlib/terms.py): TLC has no reals.  What   *)
(* is rational can be computed here exactly, with RAdd and so on; pairs    *)
(* <<n, d>> with d > 0 stand for n/d.                                      *)
EXTENDS Integers, Sequences
Q(n, d) == [op |-> "q", n |-> n, d |-> d]
R(r) == Q(r[1], r[2])
N(n) == Q(n, 1)
Un(o, a) == [op |-> o, a |-> a]
Bin(o, a, b) == [op |-> o, a |-> a, b |-> b]
Add(a, b) == Bin("add", a, b)
Sub(a, b) == Bin("sub", a, b)
Mul(a, b) == Bin("mul", a, b)
Div(a, b) == Bin("div", a, b)
Pow(a, b) == Bin("pow", a, b)
Max(a, b) == Bin("max", a, b)
Min(a, b) == Bin("min", a, b)
Exp(a) == Un("exp", a)
Ln(a) == Un("ln", a)
Sqrt(a) == Un("sqrt", a)
Abs(a) == Un("abs", a)
Phi(a) == Un("Phi", a)         \* the standard normal distribution
PhiInv(a) == Un("PhiInv", a)
Lt(a, b) == Bin("lt", a, b)
Le(a, b) == Bin("le", a, b)
Eq(a, b) == Bin("eq", a, b)
And(a, b) == Bin("and", a, b)
Or(a, b) == Bin("or", a, b)
Not(a) == Un("not", a)
True == Un("bool", 1)
False == Un("bool", 0)
IfT(c, a, b) == [op |-> "if", c |-> c, a |-> a, b |-> b]
Ref(k) == [op |-> "ref", k |-> k]        \* a value fixed by an earlier step
NotANumber == [op |-> "nan"]
Sq(a) == Mul(a, a)

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN N(0) ELSE IF n = 1 THEN s[1] ELSE Add(SumTo(s, n - 1), s[n])
Sum(s) == SumTo(s, Len(s))
RECURSIVE AllTo(_, _)
AllTo(s, n) == IF n = 0 THEN True ELSE And(AllTo(s, n - 1), s[n])
All(s) == AllTo(s, Len(s))

(* A lognormal distribution is the pair of its log-mean and log-deviation. *)
Dist(mu, sg) == [mu |-> mu, sg |-> sg]
MeanOf(d) == Exp(Add(d.mu, Div(Sq(d.sg), N(2))))
MedianOf(d) == Exp(d.mu)
SdOf(d) == Mul(MeanOf(d), Sqrt(Sub(Exp(Sq(d.sg)), N(1))))
AtMost(d, x) == IfT(Le(x, N(0)), N(0), Phi(Div(Sub(Ln(x), d.mu), d.sg)))
AtLeast(d, x) == IfT(Le(x, N(0)), N(1), Phi(Div(Sub(d.mu, Ln(x)), d.sg)))
Quantile(d, p) == Exp(Add(d.mu, Mul(d.sg, PhiInv(p))))
FromMeanSdLn(m, s) == Dist(Sub(Ln(m), Div(Sq(s), N(2))), s)
SdLnFrom(m, s) == IfT(Eq(m, N(0)), N(0), Sqrt(Ln(Add(N(1), Div(Sq(s), Sq(m))))))
FromMeanSd(m, s) == FromMeanSdLn(m, SdLnFrom(m, s))
FromMedianSdLn(m, s) == Dist(Ln(m), s)
FromMuSdLn(m, s) == Dist(m, s)
FromKind(k, a, b) ==
  CASE k = "mean_sdln" -> FromMeanSdLn(a, b)
    [] k = "mean_sd" -> FromMeanSd(a, b)
    [] k = "med_sdln" -> FromMedianSdLn(a, b)
    [] k = "mu_sdln" -> FromMuSdLn(a, b)
(* from the median and the deviation: with q = exp(sg^2), sd^2 = median^2 q (q - 1) *)
SdLnFromMedian(m, s) == Sqrt(Ln(Div(Add(N(1), Sqrt(Add(N(1), Mul(N(4), Sq(Div(s, m)))))), N(2))))
FromKindAny(loc, spread, a, b) ==
  CASE loc = "mean" /\ spread = "sdln" -> FromMeanSdLn(a, b)
    [] loc = "mean" /\ spread = "sd" -> FromMeanSd(a, b)
    [] loc = "median" /\ spread = "sdln" -> FromMedianSdLn(a, b)
    [] loc = "median" /\ spread = "sd" -> Dist(Ln(a), SdLnFromMedian(a, b))
    [] loc = "meanln" /\ spread = "sdln" -> Dist(a, b)
    [] loc = "meanln" /\ spread = "sd" -> Dist(a, SdLnFromMedian(Exp(a), b))
Moments(d) == <<MeanOf(d), d.sg, SdOf(d), d.mu, MedianOf(d)>>
(* the distribution with a scaled mean and the same log-deviation *)
Scaled(d, f) == FromMeanSdLn(Mul(f, MeanOf(d)), d.sg)
(* the sum of independent ones, and the mixture with the given weights *)
SumOf(ds) == FromMeanSd(Sum([i \in 1..Len(ds) |-> MeanOf(ds[i])]), Sqrt(Sum([i \in 1..Len(ds) |-> Sq(SdOf(ds[i]))])))
MixMean(ds, w) == Sum([i \in 1..Len(ds) |-> Mul(MeanOf(ds[i]), w[i])])
MixOf(ds, w) ==
  LET m2 == Sum([i \in 1..Len(ds) |-> Mul(Add(Sq(MeanOf(ds[i])), Sq(SdOf(ds[i]))), w[i])])
      m == MixMean(ds, w)
  IN FromMeanSd(m, Sqrt(Max(N(0), Sub(m2, Sq(m)))))

(* exact rational arithmetic *)
RECURSIVE Gcd(_, _)
AbsI(a) == IF a < 0 THEN -a ELSE a
Gcd(a, b) == IF b = 0 THEN AbsI(a) ELSE Gcd(b, a % b)
Norm(r) == LET g == Gcd(AbsI(r[1]), r[2]) IN IF g = 0 THEN <<0, 1>> ELSE <<r[1] \div g, r[2] \div g>>
RAdd(a, b) == Norm(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
RSub(a, b) == Norm(<<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>)
RMul(a, b) == Norm(<<a[1] * b[1], a[2] * b[2]>>)
RDiv(a, b) == IF b[1] > 0 THEN Norm(<<a[1] * b[2], a[2] * b[1]>>) ELSE Norm(<<-a[1] * b[2], a[2] * (-b[1])>>)
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RI(n) == <<n, 1>>
=============================================================================
