------------------------------ MODULE PyModel ------------------------------
(***************************************************************************)
(* Models as the scripting layer builds them: objects, some of them named, *)
(* made from other objects.  Defining an object under a name in use makes  *)
(* it the successor of the earlier one, and everything built on the        *)
(* earlier one is built on it from then on.                                *)
(*                                                                         *)
(*   objs   the objects in the order in which they were made; references   *)
(*          are to their numbers (0: none)                                 *)
(*   succ   what each object has been redefined as (0: it stands)          *)
(*   reg    the object each name stands for                                *)
(*   recs   recorders: the type, and the object they were made for         *)
(*                                                                         *)
(* Def is what an object means, all the way down: every reference is to    *)
(* the latest successor.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Vars, Depth, Exhaustive, Focus, Empty
VARIABLES objs, succ, reg, recs, cleared, hist
vars == <<objs, succ, reg, recs, cleared, hist>>

Unnamed == "-"
Ports == {"mu", "sg", "f", "im", "p1", "p2", "edp", "frag", "cost", "delay"}
NoRef == [p \in Ports |-> 0]
Redefinable == {"im", "edp", "frag", "loss", "cg"}
Kinds == {"det", "prob", "im", "edp", "frag", "loss", "cg", "st"}
Blank(k, n, v) == [k |-> k, n |-> n, v |-> v, ref |-> NoRef, said |-> [p \in Ports |-> Unnamed], col |-> 0, dem |-> 0, mem |-> <<>>, reb |-> 0, dmo |-> 0, im |-> 0]

(* What comes ready: functions of every form and use, and the distributions *)
(* made of them in every supported parameterisation.                        *)
BaseDet == <<"f1", "f2", "f3", "m1", "m2", "l1", "s1", "s2", "a1">>
BaseProb == << <<"mean", 4, 7>>, <<"median", 5, 8>>, <<"meanln", 6, 7>>, <<"meansd", 4, 9>> >>
Base == [i \in 1..9 |-> Blank("det", Unnamed, BaseDet[i])]
        \o [i \in 1..4 |-> [Blank("prob", Unnamed, BaseProb[i][1]) EXCEPT !.ref.mu = BaseProb[i][2], !.ref.sg = BaseProb[i][3]]]
(* and one of everything built on them *)
Full == 
  << [Blank("im", "a", "1") EXCEPT !.ref.f = 1],                                          \* 14
     [Blank("edp", "a", "1") EXCEPT !.ref.im = 14, !.ref.p1 = 10, !.said.im = "a"],       \* 15
     Blank("frag", "a", "1"),                                                             \* 16
     Blank("loss", "a", "1"), Blank("loss", "b", "2"),                                    \* 17, 18
     [Blank("cg", "a", "1") EXCEPT !.ref.edp = 15, !.ref.frag = 16, !.ref.cost = 17, !.ref.delay = 18,
         !.said.edp = "a", !.said.frag = "a", !.said.cost = "a", !.said.delay = "b"],     \* 19
     [Blank("st", "a", "1") EXCEPT !.reb = 1, !.dmo = 1, !.im = 14, !.mem = <<19>>] >>    \* 20
Start == Base \o (IF Empty THEN <<>> ELSE Full)
StartReg == [k \in Kinds |-> [n \in Names |->
              LET o == {i \in 1..Len(Start) : Start[i].k = k /\ Start[i].n = n} IN IF o = {} THEN 0 ELSE CHOOSE i \in o : TRUE]]
Init == objs = Start /\ succ = [i \in 1..Len(Start) |-> 0] /\ reg = StartReg /\ recs = <<>> /\ cleared = FALSE /\ hist = <<>>

RECURSIVE Latest(_)
Latest(o) == IF o = 0 \/ succ[o] = 0 THEN o ELSE Latest(succ[o])
Now(k) == {o \in 1..Len(objs) : objs[o].k = k /\ succ[o] = 0}
R(o, p) == Latest(objs[o].ref[p])

ImOf(o) == IF o = 0 THEN 0 ELSE CASE objs[o].k = "im" -> o [] objs[o].k = "edp" -> R(o, "im")
             [] objs[o].k = "cg" -> Latest(objs[Latest(objs[o].ref.edp)].ref.im)
             [] objs[o].k = "st" -> Latest(objs[o].im)
Members(s) == [i \in 1..Len(objs[s].mem) |-> Latest(objs[s].mem[i])]
InUse(g) == \E s \in Now("st") : \E i \in 1..Len(objs[s].mem) : Latest(objs[s].mem[i]) = g

RECURSIVE Means(_)
Means(x) ==
  LET D(o) == IF o = 0 THEN [k |-> "none"] ELSE Means(objs[o]) IN
  CASE x.k = "det" -> [k |-> "det", id |-> x.v]
    [] x.k = "prob" -> [k |-> "prob", id |-> x.v, mu |-> D(Latest(x.ref["mu"])), sg |-> D(Latest(x.ref["sg"]))]
    [] x.k = "im" -> [k |-> "im", id |-> x.v, f |-> D(Latest(x.ref["f"])), col |-> x.col, dem |-> x.dem]
    [] x.k = "edp" -> [k |-> "edp", id |-> x.v, im |-> D(Latest(x.ref["im"])), p1 |-> D(Latest(x.ref["p1"])), p2 |-> D(Latest(x.ref["p2"]))]
    [] x.k \in {"frag", "loss"} -> [k |-> x.k, id |-> x.v]
    [] x.k = "cg" -> [k |-> "cg", id |-> x.v, edp |-> D(Latest(x.ref["edp"])), frag |-> D(Latest(x.ref["frag"])), cost |-> D(Latest(x.ref["cost"])), delay |-> D(Latest(x.ref["delay"]))]
    [] x.k = "st" -> [k |-> "st", id |-> x.v, reb |-> x.reb, dmo |-> x.dmo, mem |-> [i \in 1..Len(x.mem) |-> D(Latest(x.mem[i]))]]
Def(o) == IF o = 0 THEN [k |-> "none"] ELSE Means(objs[o])

(* Questions *)
Families(k) == CASE k = "det" -> {"value"} [] k = "prob" -> {"mom", "pex"} [] k = "im" -> {"lam", "probs", "crate", "drate"}
                 [] k = "edp" -> {"lam", "mom", "pex"} [] k = "frag" -> {"pexc"} [] k = "loss" -> {"size"}
                 [] k = "cg" -> {"costedp", "delayedp", "ecostim", "sdcostim", "edelayim", "sddelayim", "pds", "annual", "lamcost", "rate", "years"}
                 [] k = "st" -> {"cost", "total", "fate", "deagg", "pdf", "annual", "years", "set"}
(* The two-state fragility "6" and losses "6" go with each other only *)
States(o) == IF objs[o].v = "6" THEN 2 ELSE 3
Sound(g) == LET n == States(R(g, "frag")) IN
            States(R(g, "cost")) = n /\ (objs[g].ref.delay = 0 \/ States(R(g, "delay")) = n)
SoundSt(s) == /\ objs[s].reb # 0 /\ objs[s].dmo # 0 /\ \A i \in 1..Len(objs[s].mem) : Sound(Latest(objs[s].mem[i]))
Askable(o) == CASE objs[o].k = "cg" -> Sound(o) [] objs[o].k = "st" -> Len(objs[o].mem) > 0 /\ SoundSt(o) [] OTHER -> TRUE

(* Recorders by what they are made for *)
RecTypes(k) == CASE k = "det" -> {"detfn"} [] k = "prob" -> {"probfn"} [] k = "im" -> {"imrate", "collapse", "collrate"} [] k = "edp" -> {"edprate", "edpim"}
                 [] k = "cg" -> {"dsedp", "dsim", "dsrate", "costedp", "costim", "delayedp", "delayim", "costrate"}
                 [] k = "st" -> {"totalcost", "structcost.annual", "structcost.by-fate", "structcost.npv", "structcost.by-edp", "structcost.by-frag", "pdf", "deagg"}
                 [] OTHER -> {}
Named(o) == objs[o].n # Unnamed /\ reg[objs[o].k][objs[o].n] = o
(* Recorders label by name what is on an intensity measure. *)
Labelled == {"imrate", "collapse", "collrate", "edpim", "dsim", "costim", "delayim", "totalcost", "deagg", "pdf", "structcost.by-fate"}
ByName == {"structcost.by-edp", "structcost.by-frag"}
Runnable(t, o) ==
  /\ Askable(o)
  /\ t \in Labelled \cup ByName => Named(ImOf(o))
  /\ t \in ByName => \A i \in 1..Len(objs[o].mem) : LET g == Latest(objs[o].mem[i]) IN Named(g) /\ Named(R(g, "edp")) /\ Named(R(g, "frag"))

Ans(o, q) == <<o, q, Def(o)>>
Step(op, o, x) == [op |-> op, o |-> o, obj |-> x, n |-> 0, who |-> <<>>, asks |-> <<>>, dead |-> 0, def |-> [k |-> "none"]]
Log(s) == hist' = Append(hist, s)

(* A definition *)
Make(x) ==
  LET o == Len(objs) + 1
      old == IF x.n = Unnamed THEN 0 ELSE reg[x.k][x.n]
  IN /\ objs' = Append(objs, x)
     /\ succ' = [i \in 1..o |-> IF i = old /\ i # 0 /\ x.k \in Redefinable THEN o ELSE IF i = o THEN 0 ELSE succ[i]]
     /\ reg' = IF x.n = Unnamed THEN reg ELSE [reg EXCEPT ![x.k][x.n] = o]
     /\ UNCHANGED <<recs, cleared>>
     /\ Log([Step("def", o, x) EXCEPT !.def = Means(x), !.dead = IF x.k \in Redefinable THEN old ELSE 0])
(* A demand in use by a structure stays on its intensity measure, a group   *)
(* in use by a structure on the structure's.                                *)
MayBe(x) ==
  LET old == IF x.n = Unnamed THEN 0 ELSE reg[x.k][x.n] IN
  CASE x.k = "edp" -> old = 0 \/ Latest(x.ref.im) = ImOf(old) \/ ~ \E g \in Now("cg") : R(g, "edp") = old /\ InUse(g)
    [] x.k = "cg" -> old = 0 \/ ~ InUse(old) \/ ImOf(old) = Latest(objs[Latest(x.ref.edp)].ref.im)
    [] OTHER -> TRUE
Said(o) == IF o # 0 /\ Named(o) THEN objs[o].n ELSE Unnamed
WithRefs(x, r) == [x EXCEPT !.ref = r, !.said = [p \in Ports |-> IF p \in {"im", "edp", "frag", "cost", "delay"} THEN Said(r[p]) ELSE Unnamed]]

Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
DefineSome(k, n) ==
  \E v \in Pick(Vars) :
    CASE k = "det" -> \E r \in Pick({"f", "m", "l", "s", "a"}) : Make(Blank("det", Unnamed, r \o v))
      [] k = "prob" -> \E i \in Pick(1..4) : Make([Blank("prob", Unnamed, BaseProb[i][1]) EXCEPT !.ref.mu = BaseProb[i][2], !.ref.sg = BaseProb[i][3]])
      [] k = "im" -> \E f \in Pick({o \in Now("det") : objs[o].v \in {"f" \o w : w \in Vars \cup {"1", "2", "3"}}}) : Make(WithRefs(Blank("im", n, v), [NoRef EXCEPT !.f = f]))
      [] k = "edp" ->
           /\ Now("im") # {}
           /\ \E i \in Pick(Now("im")) : \E p \in Pick(Now("prob")) : \E how \in Pick(1..4) : \E p2 \in Pick(Now("prob")) :
              \E e \in Pick({o \in Now("edp") : objs[o].ref.p2 = 0} \cup {0}) : \E d \in Pick({o \in Now("edp") : objs[o].ref.p2 = 0} \cup {0}) :
                LET x == WithRefs([Blank("edp", n, v) EXCEPT !.reb = IF how = 4 /\ e # 0 /\ d # 0 THEN e ELSE 0, !.dmo = IF how = 4 /\ e # 0 /\ d # 0 THEN d ELSE 0],
                       CASE how = 3 -> [NoRef EXCEPT !.im = i, !.p1 = p, !.p2 = p2]
                         [] how = 4 /\ e # 0 /\ d # 0 -> [NoRef EXCEPT !.im = i, !.p1 = objs[e].ref.p1, !.p2 = objs[d].ref.p1]
                         [] OTHER -> [NoRef EXCEPT !.im = i, !.p1 = p])
                IN MayBe(x) /\ Make(x)
      [] k \in {"frag", "loss"} -> Make(Blank(k, n, v))
      [] k = "cg" ->
           /\ Now("edp") # {} /\ Now("frag") # {} /\ Now("loss") # {}
           /\ \E e \in Pick(Now("edp")) : \E f \in Pick(Now("frag")) : \E c \in Pick(Now("loss")) : \E d \in Pick(Now("loss") \cup {0}) :
                LET x == WithRefs(Blank("cg", n, v), [NoRef EXCEPT !.edp = e, !.frag = f, !.cost = c, !.delay = d]) IN MayBe(x) /\ Make(x)
      [] k = "st" -> Make([Blank("st", n, "1") EXCEPT !.reb = 1, !.dmo = 1])

SetFate(o, w, d) == /\ objs' = [objs EXCEPT ![o] = IF w = "col" THEN [@ EXCEPT !.col = d] ELSE IF w = "dem" THEN [@ EXCEPT !.dem = d]
                                                     ELSE IF w = "reb" THEN [@ EXCEPT !.reb = d] ELSE [@ EXCEPT !.dmo = d]]
                    /\ UNCHANGED <<succ, reg, recs, cleared>> /\ Log([Step(w, o, Blank("-", "-", "-")) EXCEPT !.n = d])
(* A group on another intensity measure is refused. *)
Add(s, g) == LET ok == objs[s].im = 0 \/ ImOf(s) = ImOf(g) IN
             /\ objs' = IF ok THEN [objs EXCEPT ![s].mem = Append(@, g), ![s].im = IF @ = 0 THEN ImOf(g) ELSE @] ELSE objs
             /\ UNCHANGED <<succ, reg, recs, cleared>> /\ Log([Step(IF ok THEN "add" ELSE "badadd", s, Blank("-", "-", "-")) EXCEPT !.n = g])
Without(m, g) == LET i == CHOOSE i \in 1..Len(m) : Latest(m[i]) = g /\ \A j \in 1..(i - 1) : Latest(m[j]) # g
                 IN SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m))
Remove(s, g) == /\ objs' = [objs EXCEPT ![s].mem = Without(@, g)]
                /\ UNCHANGED <<succ, reg, recs, cleared>> /\ Log([Step("rem", s, Blank("-", "-", "-")) EXCEPT !.n = g])
Clear == /\ reg' = [k \in Kinds |-> [n \in Names |-> 0]] /\ cleared' = TRUE /\ UNCHANGED <<objs, succ, recs>> /\ Log(Step("clear", 0, Blank("-", "-", "-")))
Ask(o, q) == UNCHANGED <<objs, succ, reg, recs, cleared>> /\ Log([Step("ask", o, Blank("-", "-", "-")) EXCEPT !.asks = <<Ans(o, q)>>])
Who(o) == /\ UNCHANGED <<objs, succ, reg, recs, cleared>>
          /\ Log([Step("who", o, Blank("-", "-", "-")) EXCEPT !.who = IF objs[o].k = "cg" THEN <<ImOf(o), R(o, "frag"), States(R(o, "frag"))>> ELSE <<ImOf(o)>>])
Record(t, o) == /\ recs' = Append(recs, <<t, o>>) /\ UNCHANGED <<objs, succ, reg, cleared>> /\ Log([Step("record", o, Blank("-", "-", t)) EXCEPT !.n = Len(recs')])
Run(i) == /\ UNCHANGED <<objs, succ, reg, recs, cleared>>
          /\ Log([Step("run", Latest(recs[i][2]), Blank("-", "-", recs[i][1])) EXCEPT !.n = i])

(* Random histories *)
Weighted == <<"ask", "ask", "ask", "ask", "def", "def", "def", "def", "def", "fate", "fate", "add", "add", "rem", "who", "record", "run", "run", "clear">>
DefKinds == <<"det", "prob", "im", "im", "edp", "edp", "edp", "edp", "frag", "frag", "loss", "loss", "cg", "cg", "cg", "cg", "st">>
Other == \E o \in Pick({x \in 1..Len(objs) : succ[x] = 0 /\ Askable(x)}) : \E q \in Pick(Families(objs[o].k)) : Ask(o, q)
AskDeep == LET s == {x \in Now("st") : Askable(x)} g == {x \in Now("cg") : Askable(x)} e == Now("edp") \cup Now("im") IN
           \E k \in Pick(1..6) :
             IF k <= 2 /\ s # {} THEN \E o \in Pick(s) : \E q \in Pick(Families("st")) : Ask(o, q)
             ELSE IF k <= 4 /\ g # {} THEN \E o \in Pick(g) : \E q \in Pick(Families("cg")) : Ask(o, q)
             ELSE IF k <= 5 /\ e # {} THEN \E o \in Pick(e) : \E q \in Pick(Families(objs[o].k)) : Ask(o, q)
             ELSE Other
NextRandom ==
  /\ Len(hist) < Depth
  /\ \E w \in Pick(1..Len(Weighted)) : \E dk \in Pick(1..Len(DefKinds)) : \E n \in Pick(Names \cup {Unnamed}) :
     LET op == Weighted[w] k == DefKinds[dk]
         st == Now("st") g == Now("cg") im == Now("im")
     IN CASE op = "def" /\ (k = "edp" => im # {}) /\ (k = "cg" => Now("edp") # {} /\ Now("frag") # {} /\ Now("loss") # {})
               -> (IF k \in {"edp", "cg"} THEN DefineSome(k, n) \/ (~ ENABLED DefineSome(k, n) /\ Other) ELSE DefineSome(k, n))
          [] op = "fate" /\ im \cup st # {} -> \E o \in Pick(im \cup st) : \E d \in Pick(1..3) : \E b \in Pick({0, 1}) :
                 SetFate(o, IF objs[o].k = "im" THEN (IF b = 0 THEN "col" ELSE "dem") ELSE (IF b = 0 THEN "reb" ELSE "dmo"), d)
          [] op = "add" /\ st # {} /\ g # {} -> \E s \in Pick(st) : \E c \in Pick(g) : IF Len(objs[s].mem) < 5 /\ ~(objs[s].im # 0 /\ objs[s].mem = <<>> /\ ImOf(s) # ImOf(c)) THEN Add(s, c) ELSE Other
          [] op = "rem" /\ \E s \in st : Len(objs[s].mem) > 0 -> \E s \in Pick({x \in st : Len(objs[x].mem) > 0}) : \E i \in Pick(1..Len(objs[s].mem)) : Remove(s, Latest(objs[s].mem[i]))
          [] op = "who" /\ Now("edp") # {} -> \E o \in Pick(Now("edp") \cup g \cup {s \in st : objs[s].im # 0}) : Who(o)
          [] op = "record" -> \E o \in Pick({x \in 1..Len(objs) : succ[x] = 0 /\ RecTypes(objs[x].k) # {} /\ (x > 13 \/ Len(objs) < 16)}) : \E t \in Pick(RecTypes(objs[o].k)) : Record(t, o)
          [] op = "run" /\ \E i \in 1..Len(recs) : Runnable(recs[i][1], Latest(recs[i][2])) -> \E i \in Pick({j \in 1..Len(recs) : Runnable(recs[j][1], Latest(recs[j][2]))}) : Run(i)
          [] op = "clear" /\ Len(hist) % 7 = 0 -> Clear
          [] OTHER -> AskDeep
SpecRandom == Init /\ [][NextRandom]_vars

(* All sequences of redefinitions of the full model: the k-th definition    *)
(* uses the k-th variation, so that every one makes a difference.           *)
V == ToString(Len(hist) + 2)
Again(k, n) == Blank(k, n, V)
By(k, n) == reg[k][n]
Redefine(w) ==
  CASE w = "im" -> Make(WithRefs(Again("im", "a"), [NoRef EXCEPT !.f = 1 + ((Len(hist) + 1) % 3)]))
    [] w = "edp" -> Make(WithRefs(Again("edp", "a"), [NoRef EXCEPT !.im = By("im", "a"), !.p1 = 10 + ((Len(hist) + 1) % 4)]))
    [] w = "frag" -> Make(Again("frag", "a"))
    [] w = "cost" -> Make(Again("loss", "a"))
    [] w = "delay" -> Make(Again("loss", "b"))
    [] w = "cg" -> Make(WithRefs(Again("cg", "a"), [NoRef EXCEPT !.edp = By("edp", "a"), !.frag = By("frag", "a"), !.cost = By("loss", "b"), !.delay = By("loss", "a")]))
    [] w = "cg2" -> Make(WithRefs(Again("cg", Unnamed), [NoRef EXCEPT !.edp = By("edp", "a"), !.frag = By("frag", "a"), !.cost = By("loss", "a"), !.delay = By("loss", "b")]))
    [] w = "col" -> SetFate(By("im", "a"), "col", 1 + Len(hist))
    [] w = "dem" -> SetFate(By("im", "a"), "dem", 1 + Len(hist))
    [] w = "add" -> \E g \in Now("cg") : (\A h \in Now("cg") : h <= g) /\ Add(20, g)
NextAll == Len(hist) < Depth /\ \E w \in Focus : Redefine(w)
SpecAll == Init /\ [][NextAll]_vars
EmitRandom == Len(hist) = Depth => PrintT("@@" \o ToJson([ops |-> hist, defs |-> <<>>]))
EmitAll == PrintT("@@" \o ToJson([ops |-> hist, defs |-> {<<o, Def(o)>> : o \in {x \in 14..Len(objs) : succ[x] = 0 /\ objs[x].k \in {"im", "edp", "cg", "st"}}}]))

(***************************************************************************)
(* The model written with only the final definitions: as long as nothing   *)
(* made everything forgotten, whatever was built on a name is now built on *)
(* what the name stands for at the end; and what was built on an unnamed   *)
(* object is built on it still.                                            *)
(***************************************************************************)
FinalDefinitions == ~ cleared => \A o \in 1..Len(objs) : \A p \in {"im", "edp", "frag", "cost", "delay"} :
  objs[o].said[p] # Unnamed =>
    LET k == IF p \in {"cost", "delay"} THEN "loss" ELSE p IN R(o, p) = reg[k][objs[o].said[p]]
Unchanged == \A o \in 1..Len(objs) : \A p \in {"mu", "sg", "f", "p1", "p2"} : R(o, p) = objs[o].ref[p]
OneHazard == \A s \in Now("st") : \A i \in 1..Len(objs[s].mem) : ImOf(Latest(objs[s].mem[i])) = ImOf(s)
NamesCurrent == \A k \in Kinds : \A n \in Names : reg[k][n] # 0 => succ[reg[k][n]] = 0 /\ objs[reg[k][n]].k = k /\ objs[reg[k][n]].n = n
NoCycles == \A o \in 1..Len(objs) : succ[o] = 0 \/ succ[o] > o
=============================================================================
