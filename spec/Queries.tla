----------------------------- MODULE Queries -----------------------------
(* Questions put to one shared model, one at a time, many at once, or from *)
(* many threads, between changes of the model.  An answer is determined by *)
(* the definitions in force, what is asked, of what, and for which         *)
(* argument; never by how many others ask, what else is asked, or by what  *)
(* has been asked before.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, MaxList, MaxThreads, MaxProgram, Lazy, Modes
VARIABLES ver,    \* the version of each definition
          known,  \* answers remembered (cached): <<object, question, argument>> -> versions at the time
          hist
vars == <<ver, known, hist>>
Pick(S) == IF S = {} THEN {} ELSE IF Lazy THEN {RandomElement(S)} ELSE S

Defs == IF Lazy THEN {"f1", "m1", "m2", "g1", "l1", "l3", "i1", "s1"} ELSE {"f1", "l1"}
Objects == IF Lazy THEN {"i1", "e1", "e2", "e3", "c1", "c2", "c3", "s1"} ELSE {"i1", "c1"}
Singles(o) == CASE o = "i1" -> {"lam", "pcol", "pdem", "prep", "crate", "drate"}
                [] o \in {"e1", "e2", "e3"} -> {"lam", "mean", "meanln", "median", "sdln", "sd"}
                [] o \in {"c1", "c2", "c3"} -> {"ecostim", "sdcostim", "edelayim", "sddelayim", "ecostedp", "edelayedp", "annual", "lamcost", "rate", "distim"}
                [] OTHER -> {"cost", "total", "annual", "years", "pdf"}
Bulks(o) == CASE o = "i1" -> {"lam", "pcol", "pdem", "prep"}
              [] o \in {"e1", "e2", "e3"} -> {"lam", "mean", "meanln", "median", "sdln", "sd"}
              [] o = "s1" -> {"years"} [] OTHER -> {}
Args == IF Lazy THEN 1..9 ELSE 1..2     \* places in a list of arguments that suits the question
Asked == {o \in Objects : Bulks(o) # {}}

(* what an object's answers depend on *)
DependsOn(o) == (CASE o = "i1" -> {"f1", "i1"} [] o = "e1" -> {"f1", "i1", "m1", "g1"} [] o = "e2" -> {"f1", "i1", "m2", "g1"} [] o = "e3" -> {"f1", "i1", "m1", "m2", "g1"}
                   [] o = "c1" -> {"f1", "i1", "m1", "g1", "l1"} [] o = "c2" -> {"f1", "i1", "m1", "m2", "g1", "l3"} [] o = "c3" -> {"f1", "i1", "m2", "g1", "l1"}
                   [] OTHER -> {"f1", "i1", "m1", "m2", "g1", "l1", "l3", "s1"}) \cap Defs
Now(o) == [d \in DependsOn(o) |-> ver[d]]
(* the answers to a list of questions: those of each alone *)
Answer(o, q, a) == <<o, q, a, Now(o)>>
(* what the implementation answers: what it remembers, or a fresh calculation *)
Remembered(k, o, q, a) == IF <<o, q, a>> \in DOMAIN k THEN <<o, q, a, k[<<o, q, a>>]>> ELSE Answer(o, q, a)
Learn(k, o, q, as) == [x \in DOMAIN k \cup {<<o, q, as[i]>> : i \in 1..Len(as)} |-> IF x \in DOMAIN k THEN k[x] ELSE Now(o)]

Init == ver = [d \in Defs |-> 1] /\ known = <<>> /\ hist = <<>>
Say(r) == hist' = IF Lazy THEN Append(hist, r) ELSE <<>>
Lengths == IF Lazy THEN {0, 1, 2, 4, 9, MaxList - 1, MaxList} ELSE 0..MaxList
List(n) == IF Lazy THEN {[i \in 1..n |-> RandomElement(Args)]} ELSE [1..n -> Args]

Change == \E d \in Pick(Defs) :
   /\ ver[d] < 4
   /\ ver' = [ver EXCEPT ![d] = @ + 1]
   /\ known' = [x \in {y \in DOMAIN known : d \notin DependsOn(y[1])} |-> known[x]]
   /\ Say([op |-> "change", d |-> d, v |-> ver[d] + 1])
Forget == known' = <<>> /\ UNCHANGED ver /\ Say([op |-> "forget"])
Threads == \E t \in Pick({1, 2, 3, 8}) : \E l \in Pick({1, 2, 4}) : UNCHANGED <<ver, known>> /\ Say([op |-> "threads", t |-> t, l |-> l])
(* one at a time *)
Ask == \E o \in Pick(Objects) : \E q \in Pick(Singles(o)) : \E len \in Pick(Lengths) : \E as \in List(len) :
   /\ known' = Learn(known, o, q, as) /\ UNCHANGED ver
   /\ Say([op |-> "ask", x |-> o, q |-> q, as |-> as])
(* a list at once, also from inside a parallel region *)
Bulk == \E o \in Pick(Asked) : \E q \in Pick(Bulks(o)) : \E len \in Pick(Lengths) : \E as \in List(len) : \E n \in Pick(IF Lazy THEN {0, 0, 2, 3} ELSE {0}) :
   /\ known' = Learn(known, o, q, as) /\ UNCHANGED ver
   /\ Say([op |-> "bulk", x |-> o, q |-> q, as |-> as, nested |-> n])
(* several threads at once, each with questions of its own *)
RECURSIVE LearnAll(_, _)
LearnAll(k, ps) == IF ps = <<>> THEN k ELSE LearnAll(Learn(k, Head(ps)[1], Head(ps)[2], <<Head(ps)[3]>>), Tail(ps))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE LearnLists(_, _)
LearnLists(k, ps) == IF ps = <<>> THEN k ELSE LearnLists(Learn(k, Head(ps).x, Head(ps).q, Head(ps).as), Tail(ps))
OneQuestion(o) == <<o, RandomElement(Singles(o)), RandomElement(Args)>>
Together == \E t \in Pick(2..MaxThreads) : \E few \in Pick({TRUE, FALSE}) : \E o0 \in Pick(Objects) :
   \E ps \in {[i \in 1..t |-> [j \in 1..RandomElement(1..MaxProgram) |-> OneQuestion(IF few THEN o0 ELSE RandomElement(Objects))]]} :
   /\ known' = LearnAll(known, Flat(ps)) /\ UNCHANGED ver
   /\ Say([op |-> "together", ps |-> ps])
(* several threads at once, each with a list of its own, time and again *)
Lists == \E t \in Pick({2, 3, 5}) : \E o0 \in Pick(Asked) : \E q0 \in Pick(Bulks(o0)) : \E few \in Pick({1, 2, 3}) : \E len \in Pick({2, 4, 9, MaxList}) :
   \E os \in {[i \in 1..t |-> IF few = 3 THEN RandomElement(Asked) ELSE o0]} :
   \E ps \in {[i \in 1..t |-> [x |-> os[i], q |-> IF few = 1 THEN q0 ELSE RandomElement(Bulks(os[i])), as |-> [j \in 1..len |-> RandomElement(Args)]]]} :
   /\ known' = LearnLists(known, ps) /\ UNCHANGED ver
   /\ Say([op |-> "lists", ps |-> ps])
Next == IF ~Lazy THEN Change \/ Forget \/ Ask \/ Bulk
        ELSE IF Len(hist) >= Depth THEN FALSE
        ELSE \E k \in Pick(1..16) : CASE k \in {1, 2} -> Change [] k \in {3, 4} -> Forget [] k = 5 /\ "bulk" \in Modes -> Threads
                [] k \in 6..7 -> Ask [] k \in 8..12 /\ "bulk" \in Modes -> Bulk [] k \in 13..14 /\ "bulk" \in Modes -> Lists [] OTHER -> (IF "together" \in Modes THEN Together ELSE Ask)
Spec == Init /\ [][Next]_vars
(* what is remembered is what would be calculated now *)
Current == \A x \in DOMAIN known : Remembered(known, x[1], x[2], x[3]) = Answer(x[1], x[2], x[3])
Small == ver["f1"] < 3 /\ ver["l1"] < 3 /\ Cardinality(DOMAIN known) <= 3
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
