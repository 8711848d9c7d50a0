--------------------------- MODULE ModelGraphGen ---------------------------
(* Random behaviours of ModelGraph, written as JSON for replay into the    *)
(* real library (harness/slatdrv.cpp): every step lists the operation and, *)
(* for a query, the definition the result has to be that of.               *)
EXTENDS ModelGraph, Json, Randomization
CONSTANTS Depth, Fates, Focus
VARIABLE hist
gvars == <<vars, hist>>

(* \E x \in Pick(S) : one element of S, at random; false when S is empty. *)
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Log(op) == hist' = Append(hist, op)
HeldIn(S) == S \cap held

InitGen == Init /\ hist = <<>>

PickLoss == UNION {IF n = 1 \/ HeldIn(Loss) = {} THEN {None} ELSE Pick(HeldIn(Loss)) : n \in Pick(1..8)}
NewAs(x, r) == New(x, r) /\ Log([op |-> "new", x |-> x, k |-> Kind(x), ref |-> r])
Make(x) ==
  CASE x \in Prob -> \E a \in Pick(HeldIn(DetMu)) : \E b \in Pick(HeldIn(DetSg)) : NewAs(x, [NoRef EXCEPT !.mu = a, !.sg = b])
    [] x \in Im -> \E a \in Pick(HeldIn(DetF)) : NewAs(x, [NoRef EXCEPT !.f = a])
    [] x \in Edp -> \E a \in Pick(HeldIn(Im)) : \E b \in Pick(HeldIn(Prob)) :
                     \E c \in (IF x \in CEdp THEN Pick(HeldIn(Prob)) ELSE {None}) :
                       NewAs(x, [NoRef EXCEPT !.im = a, !.p1 = b, !.p2 = c])
    [] x \in Cg -> \E a \in Pick(HeldIn(Edp)) : \E b \in Pick(HeldIn(Frag)) :
                    \E c \in PickLoss : \E d \in PickLoss :
                       NewAs(x, [NoRef EXCEPT !.edp = a, !.frag = b, !.cost = c, !.delay = d])
    [] OTHER -> NewAs(x, NoRef)

StepNew(S) == \E x \in Pick(S \ made) : Make(x)
StepDrop == \E x \in Pick(held) : Drop(x) /\ Log([op |-> "drop", x |-> x])
StepChange == \E x \in Pick(HeldIn(Mutable)) : Change(x) /\ Log([op |-> "change", x |-> x, v |-> m.ver[x] + 1])
StepReplace(S) == \E x \in Pick(HeldIn(S)) : \E self \in Pick(1..6) :
                  \E y \in Pick({y \in HeldIn(S) : Class(y) = Class(x) /\ ((y = x) <=> (self = 1))}) :
                     Replace(x, y) /\ Log([op |-> "replace", x |-> x, y |-> y])
StepFate == \E i \in Pick(HeldIn(Im)) : \E w \in Pick({"col", "dem"}) : \E v \in Pick(Fates) :
               SetFate(i, w, v) /\ Log([op |-> w, x |-> i, v |-> v])
StepAdd == \E s \in Pick(HeldIn(St)) : \E g \in Pick(HeldIn(Cg)) :
              \/ Add(s, g) /\ Log([op |-> "add", x |-> s, y |-> g, ok |-> TRUE])
              \/ AddRejected(s, g) /\ Log([op |-> "add", x |-> s, y |-> g, ok |-> FALSE])
StepRem == \E s \in Pick(HeldIn(St)) : \E g \in Pick(HeldIn(Cg)) :
              Rem(s, g) /\ Log([op |-> "rem", x |-> s, y |-> g])
StepCost == \E s \in Pick(HeldIn(St)) : \E w \in Pick({"reb", "dmo"}) : \E v \in Pick(1..3) :
              SetCost(s, w, v) /\ Log([op |-> w, x |-> s, v |-> v])
ReadAs(x, qs) == Read(x, qs) /\ Log([op |-> "read", x |-> x, k |-> Kind(x), qs |-> SetToSeq(qs), def |-> Def(m, x)])
StepRead(S) == \E x \in Pick(HeldIn(S)) : \E all \in Pick(1..2) :
                  IF all = 1 THEN ReadAs(x, Queries(Kind(x)))
                             ELSE \E q \in Pick(Queries(Kind(x))) : ReadAs(x, {q})
StepMembers == \E s \in Pick(HeldIn(St)) :
   UNCHANGED vars /\ Log([op |-> "members", x |-> s, mem |-> [i \in 1..Len(m.mem[s]) |-> m.mem[s][i].cg], held |-> SetToSeq(held)])

(* The kind of step is drawn first, so that each kind has the weight it is *)
(* given here, however many ways there are of taking it.                   *)
Step(k) ==
  CASE k = "new0" -> StepNew(Det \cup Frag \cup Loss)
    [] k = "new1" -> StepNew(Prob \cup Im)
    [] k = "new2" -> StepNew(Edp)
    [] k = "new3" -> StepNew(Cg \cup St)
    [] k = "drop" -> StepDrop
    [] k = "change" -> StepChange
    [] k = "rdet" -> StepReplace(Det)
    [] k = "rprob" -> StepReplace(Prob)
    [] k = "rim" -> StepReplace(Im)
    [] k = "redp" -> StepReplace(Edp)
    [] k = "rcg" -> StepReplace(Cg)
    [] k = "rfl" -> StepReplace(Frag \cup Loss)
    [] k = "fate" -> StepFate
    [] k = "add" -> StepAdd
    [] k = "rem" -> StepRem
    [] k = "cost" -> StepCost
    [] k = "members" -> StepMembers
    [] k = "gim" -> StepRead(Im)
    [] k = "gedp" -> StepRead(Edp)
    [] k = "gcg" -> StepRead(Cg)
    [] k = "gst" -> StepRead(St)
Make0 == <<"new0", "new0", "new1", "new1", "new2", "new3">>
Work == CASE Focus = "im" -> <<"new1", "new2", "drop", "change", "change", "rdet", "rprob", "rim", "redp", "fate", "fate",
                               "gim", "gim", "gim", "gedp", "gedp", "gedp">>
          [] Focus = "cg" -> <<"new2", "new3", "new3", "drop", "change", "change", "rdet", "rprob", "rim", "redp", "rfl", "rfl", "fate",
                               "gcg", "gcg", "gcg", "gcg", "gcg", "gcg">>
          [] Focus = "st" -> <<"new2", "new3", "new3", "drop", "change", "change", "rdet", "rprob", "rim", "redp", "rfl", "rcg", "fate",
                               "add", "add", "add", "rem", "cost", "members", "gcg", "gst", "gst", "gst", "gst", "gst">>
          [] Focus = "members" -> <<"new2", "new3", "new3", "drop", "redp", "rcg", "rim", "add", "add", "add", "add", "add", "rem", "rem", "rem",
                               "members", "members", "members", "gst">>
          [] Focus = "replace" -> <<"new2", "new3", "new3", "change", "change", "rdet", "rprob", "rim", "redp", "rfl", "rcg", "add", "add",
                               "gim", "gedp", "gcg", "gst", "gst", "members">>
          [] Focus = "drop" -> <<"new1", "new2", "new3", "new3", "drop", "drop", "drop", "change", "rdet", "rprob", "rim", "redp", "rfl", "rcg", "fate",
                               "add", "add", "rem", "gim", "gedp", "gcg", "gst">>
Draw(q) == {q[i] : i \in Pick(1..Len(q))}
Kinds == Draw(IF Cardinality(made) * 10 < Cardinality(Ids) * 7 THEN Make0 ELSE Work)
NextGen ==
  /\ Len(hist) < Depth
  /\ \/ \E k \in Kinds : Step(k)
     \/ \E k \in Kinds : Step(k)
     \/ \E k \in Kinds : Step(k)
     \/ UNCHANGED gvars    \* the steps drawn may not be possible here
SpecGen == InitGen /\ [][NextGen]_gvars

Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
