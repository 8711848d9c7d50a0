------------------------------- MODULE Slat -------------------------------
(***************************************************************************)
(* The modelling language: what each statement means.                      *)
(*                                                                         *)
(* A program is a sequence of files of statements. A statement is given    *)
(* as it is written (which form every argument takes, which flags are      *)
(* present, in which order) and means one call of the scripting layer with *)
(* evaluated arguments.                                                    *)
(*                                                                         *)
(*   env     the variables of the file, and what they stand for            *)
(*   title   the lines of the title of the file                            *)
(*   defs    for every kind and name, the call that defined it last        *)
(*   hist    the statements so far, with the calls they mean               *)
(*                                                                         *)
(* Numbers are in thousandths.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Mode        \* Mode: "each" (every form of every statement) or "random"
VARIABLES env, title, defs, hist
state == <<env, title, defs, hist>>

Each == Mode = "each"
Pick(S) == IF Each \/ S = {} THEN S ELSE {RandomElement(S)}
One(S) == IF Each /\ S # {} THEN {CHOOSE x \in S : TRUE} ELSE Pick(S)
Chance(n) == IF Each THEN {TRUE, FALSE} ELSE {RandomElement(1..n) = 1}

(* --- values --------------------------------------------------------------- *)
Val(k, m, s, l) == [k |-> k, m |-> m, s |-> s, l |-> l]
None == Val("none", 0, "", <<>>)
IntV(m) == Val("int", m, "", <<>>)
Flt(m) == Val("flt", m, "", <<>>)
Ln(m) == Val("ln", m, "", <<>>)              \* the logarithm of m
Str(s) == Val("str", 0, s, <<>>)
List(l) == Val("list", 0, "", l)
Array(l) == Val("array", 0, "", l)
Seqs == {"list", "array"}
Dict(l) == Val("dict", 0, "", l)             \* pairs of keys and values
Geo(a, b, n) == Val("geo", n, "", <<Flt(a), Flt(b)>>)     \* n values, evenly spaced by logarithm
Ask(n, s) == Val("ask", n, s, <<>>)          \* the answer to a question at statement n
IsNum(v) == v.k \in {"int", "flt"}

(* --- expressions (in Python) ------------------------------------------------ *)
RECURSIVE Eval(_, _)
Arith(op, a, b) ==    \* of whole numbers, if products and quotients
  LET m == CASE op = "+" -> a.m + b.m [] op = "-" -> a.m - b.m 
             [] op = "*" -> IF a.k = "int" THEN (a.m \div 1000) * b.m ELSE a.m * (b.m \div 1000) [] op = "/" -> a.m \div (b.m \div 1000) IN
  IF a.k = "int" /\ b.k = "int" /\ op # "/" THEN IntV(m) ELSE Flt(m)
Eval(e, n) == CASE e[1] = "i" -> IntV(1000 * e[2])
                [] e[1] = "f" -> Flt(e[2])
                [] e[1] = "s" -> Str(e[2])
                [] e[1] = "p" -> Eval(e[2], n)
                [] e[1] = "neg" -> LET a == Eval(e[2], n) IN [a EXCEPT !.m = 0 - @]
                [] e[1] \in {"+", "-", "*", "/"} -> Arith(e[1], Eval(e[2], n), Eval(e[3], n))
                [] e[1] = "log" -> Ln(Eval(e[2], n).m)
                [] e[1] = "list" -> List([i \in 1..Len(e[2]) |-> Eval(e[2][i], n)])
                [] e[1] = "arange" -> Array([i \in 1..((e[3] - e[2] - 1) \div e[4]) + 1 |-> Flt(e[2] + (i - 1) * e[4])])
                [] e[1] = "linspace" -> Array([i \in 1..e[4] |-> Flt(e[2] + ((i - 1) * (e[3] - e[2])) \div (e[4] - 1))])
                [] e[1] = "ask" -> Ask(n, e[2])
F(m) == <<"f", m>>
I(n) == <<"i", n>>
\* some expressions worth m
ExprsFor(m) ==
  {F(m), <<"+", F(m - 7), F(7)>>, <<"-", F(m + 1500), F(1500)>>, <<"neg", F(0 - m)>>, <<"p", F(m)>>, <<"p", <<"p", <<"+", F(m - 2), F(2)>>>>>>,
   <<"*", <<"p", <<"-", I(3), I(2)>>>>, F(m)>>, <<"+", F(m - 30), <<"*", I(3), F(10)>>>>, <<"/", <<"*", F(m), I(4)>>, I(4)>>,
   <<"-", <<"p", <<"+", F(m), F(20)>>>>, <<"p", <<"*", F(10), <<"p", <<"+", I(1), I(1)>>>>>>>>>>}
  \cup (IF m % 1000 = 0 THEN {I(m \div 1000), <<"*", I(m \div 1000), I(1)>>, <<"+", I((m \div 1000) - 1), I(1)>>} ELSE {})
ASSUME \A m \in {-3900, -2300, 1, 2, 30, 400, 500, 1000, 62200, 900000} : \A e \in ExprsFor(m) : Eval(e, 0).m = m /\ IsNum(Eval(e, 0))

(* --- arguments: as they are written, and what they are worth ------------------ *)
NoArg == [f |-> "", var |-> "", e |-> <<>>, v |-> None]
Arg(f, v) == [NoArg EXCEPT !.f = f, !.v = v]
ByVar(x) == [NoArg EXCEPT !.f = "var", !.var = x, !.v = env[x]]
ByPy(e) == [NoArg EXCEPT !.f = "py", !.e = e, !.v = Eval(e, Len(hist) + 1)]
Vars == DOMAIN env
Literals(m) == {Arg("float", Flt(m)), Arg("exp", Flt(m))} \cup (IF m >= 0 THEN {Arg("plus", Flt(m))} ELSE {})
               \cup (IF m % 1000 = 0 THEN {Arg("dot", Flt(m))} \cup (IF m >= 0 THEN {Arg("int", IntV(m))} ELSE {}) ELSE {})
VarsWorth(m) == {ByVar(x) : x \in {x \in Vars : IsNum(env[x]) /\ env[x].m = m}}
Forms(m) == LET vs == VarsWorth(m) IN
  IF Each THEN Literals(m) \cup vs \cup {ByPy(e) : e \in ExprsFor(m)}
  ELSE IF vs # {} /\ RandomElement(1..2) = 1 THEN vs
  ELSE IF RandomElement(1..2) = 1 THEN Literals(m) ELSE {ByPy(e) : e \in ExprsFor(m)}
Plain(m) == Arg("float", Flt(m))
\* "ln": m stands for a logarithm
FormsLn(m) == IF m >= 0 THEN {ByPy(<<"log", F(m)>>), ByPy(<<"p", <<"log", <<"+", F(m), F(0)>>>>>>)} ELSE {}
RECURSIVE RandomArgs(_)
RandomArgs(ms) == IF ms = <<>> THEN <<>> ELSE <<RandomElement(Forms(ms[1]))>> \o RandomArgs(SubSeq(ms, 2, Len(ms)))
ArgSeqs(ms) == IF Each THEN {[i \in 1..Len(ms) |-> IF i = k THEN a ELSE Plain(ms[i])] : <<k, a>> \in UNION {{<<k, a>> : a \in Forms(ms[k])} : k \in 1..Len(ms)}}
               ELSE {RandomArgs(ms)}
Worth(as) == [i \in 1..Len(as) |-> as[i].v]

(* --- flags of distributions ----------------------------------------------------- *)
MuKinds == {"mean_ln_x", "median_x", "mean_x"}
SdKinds == {"sd_ln_x", "sd_x"}
\* as written: which are present, and in which order
Flags == {<<>>} \cup {<<m>> : m \in MuKinds} \cup {<<s>> : s \in SdKinds} \cup UNION {{<<m, s>>, <<s, m>>} : m \in MuKinds, s \in SdKinds}
Given(fs, S) == {fs[i] : i \in 1..Len(fs)} \cap S
MuOf(fs) == IF Given(fs, MuKinds) = {} THEN "mean_ln_x" ELSE CHOOSE x \in Given(fs, MuKinds) : TRUE
SdOf(fs) == IF Given(fs, SdKinds) = {} THEN "sd_ln_x" ELSE CHOOSE x \in Given(fs, SdKinds) : TRUE
\* a deviation goes with a mean
GoodFlags == {fs \in Flags : SdOf(fs) = "sd_x" => MuOf(fs) = "mean_x"}

(* --- names --------------------------------------------------------------------- *)
Hazards == {"H1", "H2"}
Medians == {"M1", "M2"}
LogMeans == {"G1", "G2"}
Spreads == {"S1", "S2"}
Probs == {"Q1", "Q2"}
Ims == {"A", "B"}
ImOf == [E1 |-> "A", E2 |-> "A", E3 |-> "B"]
Edps == DOMAIN ImOf
Frags == {"F1", "F2", "K.1"}
Losses == {"L1", "L2", "N_1"}
NStates(x) == IF x \in {"K.1", "N_1"} THEN 2 ELSE 3
DemandOf == [C1 |-> {"E1", "E2"}, C2 |-> {"E1", "E2"}, C3 |-> {"E3"}]
Groups == DOMAIN DemandOf
MembersOf == [T1 |-> {"C1", "C2"}, T2 |-> {"C3"}]
Structures == DOMAIN MembersOf
Recs == {"r1", "r2", "r.3"}
\* the same names may be used for different kinds of things
Home == [det |-> Hazards \cup Medians \cup LogMeans \cup Spreads, prob |-> Probs, im |-> Ims, edp |-> Edps, frag |-> Frags, loss |-> Losses, cg |-> Groups, st |-> Structures, rec |-> Recs]

(* --- statements and calls -------------------------------------------------------- *)
Blank == [op |-> "", id |-> "", type |-> "", args |-> <<>>, refs |-> <<>>, flags |-> <<>>, num |-> <<>>, at |-> [f |-> "", x |-> <<>>, a |-> NoArg], cols |-> <<>>, file |-> "", mode |-> "", text |-> ""]
Call0 == [fn |-> "", id |-> "", type |-> "", vals |-> <<>>, refs |-> <<>>, mu |-> "", sd |-> "", num |-> <<>>, at |-> None, cols |-> None, file |-> "", app |-> FALSE, norm |-> FALSE]
Do(st, call) == hist' = Append(hist, [st |-> st, call |-> call])
Define(kind, st, call) == /\ defs' = [defs EXCEPT ![kind] = (st.id :> call) @@ @] /\ UNCHANGED <<env, title>> /\ Do(st, call)
Effect(st, call) == UNCHANGED <<env, title, defs>> /\ Do(st, call)
Known(kind) == DOMAIN defs[kind]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))

\* deterministic functions
Det ==
  LET def(id, t, ms) == \E as \in ArgSeqs(ms) :
        Define("det", [Blank EXCEPT !.op = "detfn", !.id = id, !.type = t, !.args = as],
               [Call0 EXCEPT !.fn = "detfn", !.id = id, !.type = t, !.vals = Worth(as)]) IN
  \/ \E id \in One(Hazards) : \E ms \in Pick({<<1221000, 29800, 62200>>, <<900000, 31000, 60000>>}) : def(id, "hyperbolic", ms)
  \/ \E id \in One(Hazards) : def(id, "powerlaw", <<1, -2300>>)
  \/ \E id \in One(Hazards) : \E ms \in Pick({<<10, 400, 100, 100, 1000, 2, 3000, 1>>, <<10, 500, 400, 30>>}) : def(id, "loglog", ms)
  \/ \E id \in One(Medians) : \E ms \in Pick({<<0, 1, 500, 30, 1500, 80, 4000, 120>>, <<0, 2, 4000, 400>>}) : def(id, "linear", ms)
  \/ \E id \in One(Medians) : \E ms \in Pick({<<50, 1100>>, <<30, 1000>>}) : def(id, "powerlaw", ms)
  \/ \E id \in One(LogMeans) : \E ms \in Pick({<<0, -7000, 500, -3900, 1500, -2800, 4000, -2000>>, <<0, -6000, 4000, -2300>>}) : def(id, "linear", ms)
  \/ \E id \in One(Spreads) : \E ms \in Pick({<<400, 50>>, <<500, 0>>}) : def(id, "powerlaw", ms)
  \/ \E id \in One(Spreads) : def(id, "linear", <<0, 400, 4000, 500>>)

\* probabilistic functions: of functions given by name or by variable
FnRefs(S) == {Arg("id", Str(n)) : n \in S \cap Known("det")} \cup {ByVar(x) : x \in {x \in Vars : env[x].k = "str" /\ env[x].s \in S \cap Known("det")}}
Prob == \E id \in One(Probs), fs \in Pick({fs \in Flags : SdOf(fs) = "sd_ln_x"}) :
          \E mf \in Pick(FnRefs(IF MuOf(fs) = "mean_ln_x" THEN LogMeans ELSE Medians)), sf \in Pick(FnRefs(Spreads)) :
            Define("prob", [Blank EXCEPT !.op = "probfn", !.id = id, !.args = <<mf, sf>>, !.flags = fs],
                   [Call0 EXCEPT !.fn = "probfn", !.id = id, !.refs = <<mf.v.s, sf.v.s>>, !.mu = MuOf(fs), !.sd = SdOf(fs)])

Im == \E id \in One(Ims), f \in Pick(Hazards \cap Known("det")) :
        Define("im", [Blank EXCEPT !.op = "im", !.id = id, !.refs = <<f>>], [Call0 EXCEPT !.fn = "im", !.id = id, !.refs = <<f>>])
Edp == \E id \in Pick(Edps) : \E f \in Pick(Known("prob")) : ImOf[id] \in Known("im") /\
         Define("edp", [Blank EXCEPT !.op = "edp", !.id = id, !.refs = <<ImOf[id], f>>], [Call0 EXCEPT !.fn = "edp", !.id = id, !.refs = <<ImOf[id], f>>])

\* one distribution: locations and spreads by kind
Fit(m, fs) == <<IF MuOf(fs) = "mean_ln_x" THEN CASE m = 1100 -> 0 [] m = 30000 -> 3400 [] m = 8000 -> 2000 ELSE m,
                IF SdOf(fs) = "sd_x" THEN m \div 2 ELSE 400>>
LnArgs(m, fs) == IF MuOf(fs) # "mean_ln_x" THEN {} ELSE {<<a, Plain(500)>> : a \in FormsLn(m)}
DistArgs(m, fs) == IF ~Each /\ LnArgs(m, fs) # {} /\ RandomElement(1..4) = 1 THEN {RandomElement(LnArgs(m, fs))}
                   ELSE ArgSeqs(Fit(m, fs)) \cup (IF Each THEN LnArgs(m, fs) ELSE {})
Distribution == \E op \in Pick({"collapse", "demolition", "rebuildcost", "demolitioncost"}), fs \in Pick(GoodFlags) :
  LET m == CASE op = "collapse" -> 1100 [] op = "demolition" -> 1100 [] op = "rebuildcost" -> 30000 [] OTHER -> 8000
      k == IF op \in {"collapse", "demolition"} THEN "im" ELSE "st" IN
  \E id \in One(Known(k)) : \E as \in DistArgs(m, fs) :
    Effect([Blank EXCEPT !.op = op, !.id = id, !.args = as, !.flags = fs],
           [Call0 EXCEPT !.fn = op, !.id = id, !.vals = Worth(as), !.mu = MuOf(fs), !.sd = SdOf(fs)])

\* one for every damage state
Ladder(ms, fs) == Flat([i \in 1..Len(ms) |-> <<ms[i], IF SdOf(fs) = "sd_x" THEN ms[i] \div 2 ELSE IF i = 2 THEN 500 ELSE 400>>])
Frag == \E id \in Pick(Frags), fs \in Pick(GoodFlags) :
  \E ms \in Pick(IF MuOf(fs) = "mean_ln_x" THEN {<<-4600, -3900, -3000>>, <<-4000, -3500, -2300>>} ELSE {<<10, 20, 50>>, <<8, 30, 100>>}) :
    \E as \in ArgSeqs(Ladder(SubSeq(ms, 1, NStates(id)), fs)) :
      Define("frag", [Blank EXCEPT !.op = "fragfn", !.id = id, !.args = as, !.flags = fs],
             [Call0 EXCEPT !.fn = "fragfn", !.id = id, !.vals = Worth(as), !.mu = MuOf(fs), !.sd = SdOf(fs)])
Loss ==
  \/ \E id \in Pick(Losses), fs \in Pick(GoodFlags) :
       \E ms \in Pick(IF MuOf(fs) = "mean_ln_x" THEN {<<-2300, -900, 0>>, <<0, 400, 1000>>} ELSE {<<100, 400, 1000>>, <<30, 500, 2000>>}) :
         \E as \in ArgSeqs(Ladder(SubSeq(ms, 1, NStates(id)), fs)) :
           Define("loss", [Blank EXCEPT !.op = "lossfn", !.type = "simple", !.id = id, !.args = as, !.flags = fs],
                  [Call0 EXCEPT !.fn = "simplelossfn", !.id = id, !.vals = Worth(as), !.mu = MuOf(fs), !.sd = SdOf(fs)])
  \/ \E id \in Pick(Losses) :
       \E ms \in Pick({<< <<2000, 20000, 400, 100, 400>>, <<5000, 10000, 1000, 500, 400>>, <<1000, 30000, 3000, 1000, 500>> >>}) :
         \E as \in ArgSeqs(Flat(SubSeq(ms, 1, NStates(id)))) :
           Define("loss", [Blank EXCEPT !.op = "lossfn", !.type = "bilevel", !.id = id, !.args = as],
                  [Call0 EXCEPT !.fn = "bilevellossfn", !.id = id, !.vals = Worth(as)])

\* a delay and the two adjustments may be left out
Group == \E id \in One(Groups) : \E e \in Pick(DemandOf[id] \cap Known("edp")), f \in Pick(Known("frag")) :
  LET ls == {l \in Known("loss") : NStates(l) = NStates(f)} IN
  \E c \in Pick(ls), withdelay \in Chance(2), n \in Pick({1, 4, 25}), adj \in Pick({<<>>, <<800>>, <<1250, 500>>, <<1000, 2000>>}) :
    \E d \in IF withdelay THEN Pick(ls) ELSE {""} :
      Define("cg", [Blank EXCEPT !.op = "compgroup", !.id = id, !.refs = <<e, f, c>> \o (IF withdelay THEN <<d>> ELSE <<>>), !.num = <<n>> \o adj],
             [Call0 EXCEPT !.fn = "compgroup", !.id = id, !.refs = <<e, f, c, d>>,
                           !.num = <<n, IF Len(adj) > 0 THEN adj[1] ELSE 1000, IF Len(adj) > 1 THEN adj[2] ELSE 1000>>])
Structure == \E id \in One(Structures) : \E gs \in Pick({s \in {<<"C1">>, <<"C2">>, <<"C3">>, <<"C1", "C2">>, <<"C2", "C1">>, <<"C1", "C2", "C1">>} :
                                                          \A i \in 1..Len(s) : s[i] \in MembersOf[id] \cap Known("cg")}) :
  Define("st", [Blank EXCEPT !.op = "structure", !.id = id, !.refs = gs], [Call0 EXCEPT !.fn = "structure", !.id = id, !.refs = gs])

\* variables
Texts == {"plain", "two  words", "it's", "say \"hi\"", "\"quoted\"", "'single'", "back\\slash", "a # b; c", "", "\\\"", "end\\"}
SetTo(x, a) == /\ env' = (x :> a.v) @@ env /\ UNCHANGED <<title, defs>>
               /\ Do([Blank EXCEPT !.op = "set", !.id = x, !.args = <<a>>], [Call0 EXCEPT !.fn = "set", !.id = x, !.vals = <<a.v>>])
Paramd(a) == a.f \in {"float", "exp", "plus", "dot", "int"}
Elements == {<<Flt(400), Flt(500)>>, <<Flt(100), IntV(1000), Flt(2000)>>, <<Flt(300)>>, <<Str("mean_x"), Str("sd_ln_x")>>, <<Str("median_x"), Flt(500)>>}
Entries == {<< <<Str("a"), Flt(400)>>, <<Str("b b"), List(<<IntV(1000), Str("x")>>)>> >>, << <<Str("only"), Str("it's")>> >>,
            << <<Str("k"), Dict(<< <<Str("n"), IntV(2000)>> >>)>>, <<Str("k2"), Str("v")>>, <<Str("k3"), Flt(30)>> >> }
Questions == {"pyslat.im.lookup('A').getlambda(0.3)", "list(map(math.sqrt, [4, 9.0]))", "pyslat.linrange(1, 2, 3)", "numpy.array([0.5, 1.5]) * 2", "pyslat.detfn.lookup('M1').ValueAt(0.7)"}
Asked(q) == q \in Questions
SetVar == \E x \in One({"x", "y_1", "z", "name"}) :
  \/ \E m \in Pick({400, 500, 1000, 30, 1100, 2000}) : \E a \in Pick(Forms(m)) : SetTo(x, a)
  \/ \E n \in One(Home.det) : \E f \in Pick({"id", "str"}) : SetTo(x, Arg(f, Str(n)))
  \/ \E t \in Pick(Texts) : \E f \in Pick({"str", "str1", "str2"}) : SetTo(x, Arg(f, Str(t)))
  \/ \E l \in Pick(Elements) : SetTo(x, Arg("arr", List(l)))
  \/ \E l \in Pick(Entries) : SetTo(x, Arg("dict", Dict(l)))
  \/ \E y \in Pick(Vars) : SetTo(x, ByVar(y))
  \/ \E e \in Pick({<<"list", <<F(100), F(400)>>>>, <<"linspace", 100, 500, 5>>, <<"arange", 200, 900, 300>>, <<"s", "median_x">>, <<"s", "a (b) c">>, <<"list", <<<<"s", "mean_x">>, F(160)>>>>}) : SetTo(x, ByPy(e))
  \/ "A" \in Known("im") /\ "M1" \in Known("det") /\ \E q \in Pick(Questions) : SetTo(x, ByPy(<<"ask", q>>))

\* printing
Dests == {<<"", "">>} \cup {<<f, m>> : f \in {"out1", "sub/out_2.txt", "3.txt"}, m \in {"", "--new", "--append"}}
Say ==
  LET pr(st, call) == \E d \in Pick(Dests) : Effect([st EXCEPT !.op = "print", !.file = d[1], !.mode = d[2]], [call EXCEPT !.fn = "print", !.file = d[1], !.app = (d[2] = "--append")]) IN
  \/ \E t \in Pick(Texts) : \E f \in Pick({"str", "str1", "str2"}) : pr([Blank EXCEPT !.type = "message", !.args = <<Arg(f, Str(t))>>], [Call0 EXCEPT !.type = "message", !.vals = <<Str(t)>>])
  \/ pr([Blank EXCEPT !.type = "message"], [Call0 EXCEPT !.type = "message", !.vals = <<Str("")>>])
  \/ \E x \in Pick(Vars) : pr([Blank EXCEPT !.type = "message", !.args = <<ByVar(x)>>], [Call0 EXCEPT !.type = "message", !.vals = <<env[x]>>])
  \/ \E e \in Pick(ExprsFor(2000) \cup {<<"s", "done (1)">>}) : pr([Blank EXCEPT !.type = "message", !.args = <<ByPy(e)>>], [Call0 EXCEPT !.type = "message", !.vals = <<Eval(e, 0)>>])
  \/ \E k \in Pick({"det", "prob", "edp", "frag", "loss", "cg"}) : \E n \in One(Known(k)) :
       pr([Blank EXCEPT !.type = k, !.id = n], [Call0 EXCEPT !.type = k, !.id = n])
  \/ \E n \in Pick(Known("im")) : pr([Blank EXCEPT !.type = "im", !.id = n], [Call0 EXCEPT !.type = "im", !.id = n])
  \/ pr([Blank EXCEPT !.type = "title"], [Call0 EXCEPT !.type = "title", !.vals = [i \in 1..Len(title) |-> Str(title[i])]])
Title == \E t \in Pick(Texts) : \E f \in Pick({"str", "str1", "str2"}) :
  /\ title' = Append(title, t) /\ UNCHANGED <<env, defs>>
  /\ Do([Blank EXCEPT !.op = "title", !.args = <<Arg(f, Str(t))>>], [Call0 EXCEPT !.fn = "nothing"])

\* settings
Searches == {"binary", "revbin", "lowrev", "scattered", "directed"}
Integration == \E tol \in Pick({10, 30}) : \E n \in Pick({1000, 512000, 2000}) : \E as \in ArgSeqs(<<tol, n>>) : as[2].f \in {"int", "var", "py"} /\ as[2].v.k = "int" /\
  \/ Effect([Blank EXCEPT !.op = "integration", !.args = as], [Call0 EXCEPT !.fn = "integration", !.vals = Worth(as)])
  \/ \E s \in Pick(Searches), l \in Pick({256000, 64000, 1000}) : \E a \in Pick({a \in Forms(l) : a.v.k = "int" /\ a.f \in {"int", "var", "py"}}) :
       Effect([Blank EXCEPT !.op = "integration", !.args = as \o <<a>>, !.type = s], [Call0 EXCEPT !.fn = "integration", !.vals = Worth(as \o <<a>>), !.type = s])
Dirs == \E op \in Pick({"inputdir", "outputdir"}), d \in Pick({"d1", "d2/e", "data.1"}) :
  Effect([Blank EXCEPT !.op = op, !.file = d], [Call0 EXCEPT !.fn = op, !.file = d])
Import ==
  \/ \E id \in One(Probs), f \in Pick({"resp1", "d1/resp2.txt"}) :
       Define("prob", [Blank EXCEPT !.op = "importprobfn", !.id = id, !.file = f], [Call0 EXCEPT !.fn = "importprobfn", !.id = id, !.file = f])
  \/ \E id \in One(Ims), f \in Pick({"haz1", "d1/haz2.txt"}) :
       Define("im", [Blank EXCEPT !.op = "importimfn", !.id = id, !.file = f], [Call0 EXCEPT !.fn = "importimfn", !.id = id, !.file = f])
Stats == \E m \in Pick({"print", "reset"}) : Effect([Blank EXCEPT !.op = "intstats", !.mode = m], [Call0 EXCEPT !.fn = "intstats", !.type = m])

\* recorders
AtForms(t) ==
  LET lists == {x \in Vars : env[x].k \in Seqs /\ \A i \in 1..Len(env[x].l) : IsNum(env[x].l[i])}
      form(f, x, v) == [f |-> f, x |-> x, v |-> v, a |-> NoArg]
      steps(a, d, n) == List([i \in 1..n |-> Flt(a + (i - 1) * d)]) IN
  {form("list", <<300>>, List(<<Flt(300)>>)), form("list", <<400, 100, 1000>>, List(<<Flt(400), Flt(100), Flt(1000)>>)),
   form("range", <<100, 200, 500>>, steps(100, 200, 3)), form("range", <<0 + 10, 100, 410>>, steps(10, 100, 5)),
   form("lin", <<100, 900, 5>>, steps(100, 200, 5)), form("lin", <<500, 1000, 2>>, steps(500, 500, 2)),
   form("log", <<10, 1000, 4>>, Geo(10, 1000, 4)), form("log", <<200, 800, 2>>, Geo(200, 800, 2))}
  \cup {[f |-> "arg", x |-> <<>>, v |-> Eval(e, 0), a |-> ByPy(e)] : e \in {<<"list", <<F(200), <<"+", F(300), F(100)>>>>>>, <<"linspace", 100, 500, 5>>, <<"arange", 100, 1000, 400>>}}
  \cup {[f |-> "arg", x |-> <<>>, v |-> env[x], a |-> ByVar(x)] : x \in lists}
Columns(t, o) ==
  LET name(s) == Arg("id", Str(s)) IN
  CASE t \in {"probfn", "edpim"} -> {<<name("mean_x"), name("sd_ln_x")>>, <<name("median_x")>>, <<Arg("str", Str("mean_ln_x")), Plain(160), ByPy(F(840))>>,
                                     <<ByPy(<<"list", <<<<"s", "mean_x">>, F(160)>>>>), name("sd_x")>>, <<Plain(500)>>}
                                    \cup {<<ByVar(x)>> : x \in {x \in Vars : env[x] \in {Flt(400), Flt(500), Str("median_x"), List(<<Str("mean_x"), Str("sd_ln_x")>>), List(<<Str("median_x"), Flt(500)>>)}}}
                                    \cup {<<name("mean_x"), ByVar(x), name("sd_x")>> : x \in {x \in Vars : env[x] \in {Flt(400), List(<<Flt(400), Flt(500)>>)}}}
    [] t \in {"dsedp", "dsim"} -> {<<Arg("int", IntV(1000))>>, <<Arg("int", IntV(2000)), ByPy(I(1))>>} \cup {<<ByVar(x)>> : x \in {x \in Vars : env[x] = IntV(1000)}}
    [] t \in {"costedp", "costim", "delayedp", "delayim"} -> {<<name("sd_ln_x"), name("mean_x")>>, <<name("mean_x")>>, <<Arg("str1", Str("sd_ln_x"))>>}
                                    \cup {<<ByVar(x)>> : x \in {x \in Vars : env[x] = List(<<Str("mean_x"), Str("sd_ln_x")>>)}}
    [] t \in {"by-fate", "by-edp", "by-frag", "annual"} -> {<<name("sd_x"), name("mean_x")>>, <<name("median_x"), Arg("str2", Str("mean_ln_x"))>>, <<name("sd_ln_x")>>}
                                    \cup {<<ByVar(x)>> : x \in {x \in Vars : env[x] = Str("median_x")}}
    [] OTHER -> {}
ColsWorth(cs) == Flat([i \in 1..Len(cs) |-> IF cs[i].v.k \in Seqs THEN cs[i].v.l ELSE <<cs[i].v>>])
SortedCols(fs) == SelectSeq(<<"mean_ln_x", "mean_x", "median_x", "sd_ln_x", "sd_x">>, LAMBDA c : c \in {fs[i] : i \in 1..Len(fs)})
Targets(t) == CASE t = "detfn" -> Known("det") [] t = "probfn" -> Known("prob") [] t \in {"imrate", "collapse", "collrate"} -> Known("im") [] t \in {"edpim", "edprate"} -> Known("edp")
                [] t \in {"deagg", "totalcost", "pdf", "by-fate", "by-edp", "by-frag", "annual", "npv"} -> Known("st")
                [] t \in {"delayedp", "delayim"} -> {g \in Known("cg") : defs.cg[g].refs[4] # ""}
                [] OTHER -> Known("cg")
RecTypes == {"detfn", "probfn", "imrate", "edpim", "edprate", "dsedp", "dsim", "costedp", "costim", "delayim", "delayedp", "dsrate", "collrate", "costrate", "collapse",
             "deagg", "totalcost", "pdf", "by-fate", "by-edp", "by-frag", "annual", "npv"}
NoAt == {"dsrate", "collrate", "annual"}
RecDests == {<<"", "">>} \cup {<<f, m>> : f \in {"rec1", "sub/rec_2.csv"}, m \in {"", "--new", "--append"}}
Recorder == \E id \in One(Recs), t \in Pick(RecTypes), d \in Pick(RecDests) : \E o \in One(Targets(t)) :
  LET st == [Blank EXCEPT !.op = "recorder", !.id = id, !.type = t, !.refs = <<o>>, !.file = d[1], !.mode = d[2]]
      call == [Call0 EXCEPT !.fn = "recorder", !.id = id, !.type = t, !.refs = <<o>>, !.file = d[1], !.app = (d[2] = "--append")] IN
  \/ /\ t \notin NoAt \cup {"npv"}
     /\ \E at \in Pick(AtForms(t)) :
          \/ \E n \in IF t = "pdf" THEN Chance(2) ELSE {FALSE} :
               Define("rec", [st EXCEPT !.at = [f |-> at.f, x |-> at.x, a |-> at.a], !.text = IF n THEN "--normalise" ELSE ""], [call EXCEPT !.at = at.v, !.norm = n])
          \/ \E cs \in Pick(Columns(t, o)) :
               Define("rec", [st EXCEPT !.at = [f |-> at.f, x |-> at.x, a |-> at.a], !.cols = cs], [call EXCEPT !.at = at.v, !.cols = List(ColsWorth(cs))])
  \/ /\ t \in {"dsrate", "collrate"} /\ Define("rec", st, call)
  \/ /\ t = "npv" /\ \E y \in Pick({<<1, 1, 4>>, <<10, 5, 40>>, <<1, 10, 21>>, <<2, 3, 12>>}), r \in Pick({50, 30}) :
          Define("rec", [st EXCEPT !.num = y \o <<r>>],
                 [call EXCEPT !.num = <<r>>, !.at = List([i \in 1..((y[3] - y[1] - 1) \div y[2]) + 1 |-> IntV(1000 * (y[1] + (i - 1) * y[2]))])])
  \/ /\ t = "annual" /\ \E fs \in Pick(Flags) :
          \/ Define("rec", [st EXCEPT !.flags = fs], [call EXCEPT !.cols = List([i \in 1..Len(SortedCols(fs)) |-> Str(SortedCols(fs)[i])])])
          \/ fs = <<>> /\ \E cs \in Pick(Columns(t, o)) : Define("rec", [st EXCEPT !.cols = cs], [call EXCEPT !.cols = List(ColsWorth(cs))])
Analyze == Effect([Blank EXCEPT !.op = "analyze"], [Call0 EXCEPT !.fn = "analyze"])

\* the next file: variables and title are those of one file
NewFile == /\ env' = <<>> /\ title' = <<>> /\ UNCHANGED defs
           /\ Do([Blank EXCEPT !.op = "file"], [Call0 EXCEPT !.fn = "nothing"])

(* --- behaviours --------------------------------------------------------------- *)
NoDefs == [k \in DOMAIN Home |-> <<>>]
\* what there is before the program: made by calls, the same for both
Context == [det |-> Home.det, prob |-> {"Q1"}, im |-> {"A", "B"}, edp |-> Edps, frag |-> Frags, loss |-> Losses, cg |-> Groups, st |-> Structures, rec |-> {}]
WithContext == [k \in DOMAIN Home |-> [n \in Context[k] |-> IF k = "cg" THEN [Call0 EXCEPT !.refs = <<"", "", "", "L">>] ELSE Call0]]
FirstVars == [x |-> Flt(400), n |-> IntV(1000), h |-> Flt(500), t |-> Flt(2000), fm |-> Str("M1"), fs |-> Str("S1"), at |-> List(<<Flt(400), Flt(500)>>),
              cs |-> List(<<Str("mean_x"), Str("sd_ln_x")>>), mc |-> List(<<Str("median_x"), Flt(500)>>), c |-> Str("median_x"), gm |-> Str("G1")]
FirstForm(v) == IF v.k = "str" THEN Arg(IF v.s = "median_x" THEN "str" ELSE "id", v) ELSE IF v.k = "list" THEN Arg("arr", v) ELSE IF v.k = "int" THEN Arg("int", v) ELSE Arg("float", v)
FirstSets == [i \in 1..11 |-> LET x == <<"x", "n", "h", "t", "fm", "fs", "at", "cs", "mc", "c", "gm">>[i] IN
                 [st |-> [Blank EXCEPT !.op = "set", !.id = x, !.args = <<FirstForm(FirstVars[x])>>], call |-> [Call0 EXCEPT !.fn = "set", !.id = x, !.vals = <<FirstVars[x]>>]]]
Init == /\ title = <<>> /\ defs = WithContext
        /\ IF Each THEN env = FirstVars /\ hist = FirstSets ELSE env = <<>> /\ hist = <<>>
Statement == \/ Det \/ Prob \/ Im \/ Edp \/ Distribution \/ Frag \/ Loss \/ Group \/ Structure \/ SetVar \/ Say \/ Title \/ Integration \/ Dirs \/ Import \/ Stats \/ Recorder
             \/ (~Each /\ Analyze)
\* in random programs, weights
Weighted == \E w \in Pick(1..24) :
  CASE w \in {1, 2} -> Det [] w = 3 -> Prob [] w = 4 -> Im [] w = 5 -> Edp [] w \in {6, 7} -> Distribution [] w = 8 -> Frag [] w = 9 -> Loss [] w = 10 -> Group
    [] w = 11 -> Structure [] w \in {12, 13, 14} -> SetVar [] w \in {15, 16} -> Say [] w = 17 -> Title [] w = 18 -> Integration [] w = 19 -> (Dirs \/ Import \/ Stats)
    [] w \in {20, 21, 22} -> Recorder [] w = 23 -> Analyze [] OTHER -> (NewFile \/ SetVar)
Limit == IF Each THEN Len(FirstSets) + Depth ELSE Depth
NextEach == Len(hist) < Limit /\ Statement
NextRandom == Len(hist) < Limit /\ Weighted
SpecEach == Init /\ [][NextEach]_state
SpecRandom == Init /\ [][NextRandom]_state

(* --- properties ------------------------------------------------------------------ *)
\* no statement's meaning has a hole
RECURSIVE Whole(_)
Whole(v) == v.k # "none" /\ (v.k = "list" => \A i \in 1..Len(v.l) : Whole(v.l[i]))
Evaluated == \A i \in 1..Len(hist) : \A j \in 1..Len(hist[i].call.vals) : Whole(hist[i].call.vals[j])
\* every name stands for the last definition of it, and what a variable stood for when it was used stays
LastDefinition == \A k \in {"prob", "im", "edp", "frag", "loss", "cg", "st", "rec"} : \A n \in DOMAIN defs[k] :
  LET is == {i \in 1..Len(hist) : hist[i].call = defs[k][n]} IN defs[k][n].fn # "" => is # {}
NoRewriting == [][\A i \in 1..Len(hist) : hist'[i] = hist[i]]_state
\* flags may come in either order, and none is the log-mean and log-deviation
FlagsCommute == \A m \in MuKinds, s \in SdKinds : MuOf(<<m, s>>) = m /\ SdOf(<<m, s>>) = s /\ MuOf(<<s, m>>) = m /\ SdOf(<<s, m>>) = s /\ MuOf(<<s>>) = "mean_ln_x" /\ SdOf(<<m>>) = "sd_ln_x"
EmitEach == PrintT("@@" \o ToJson([first |-> SubSeq(hist, 1, Len(FirstSets)), s |-> SubSeq(hist, Len(FirstSets) + 1, Len(hist))]))
EmitRandom == Len(hist) = Limit => PrintT("@@" \o ToJson([s |-> hist]))
=============================================================================
