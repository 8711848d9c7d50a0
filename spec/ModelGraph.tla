---------------------------- MODULE ModelGraph ----------------------------
(***************************************************************************)
(* SLAT's model objects: hazards (im), demands (edp), component groups     *)
(* (cg) and structures (st), built on deterministic functions (det),       *)
(* probabilistic functions (prob), fragility (frag) and loss (loss)        *)
(* functions.  Every object keeps the results of expensive calculations    *)
(* in caches, and subscribes (cb) to what it depends on, so that changes   *)
(* and replacements clear the caches that depend on them.                  *)
(*                                                                         *)
(*   m       the model as the user defined it (references, versions, ...)  *)
(*   held    objects the program still holds; an object is alive while it  *)
(*           is held or something alive refers to it                       *)
(*   cb      subscriptions: cb[x] is a set of <<client, port>>             *)
(*   cache   per object and family of results: empty, fresh or stale       *)
(*                                                                         *)
(* The properties: no cache is ever stale (P01, P02, P03, P15),            *)
(* subscriptions are exactly the live references (P04, P05), and a         *)
(* structure's members are what the operations say (P19).                  *)
(* Defects switches off single steps of the propagation: each set of       *)
(* defects that were found in the code (and repaired) violates them.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS DetF, DetMu, DetSg,     \* deterministic functions by role
          Prob, Im, Edp, CEdp,    \* CEdp \subseteq Edp: the larger of two demands
          Frag, Loss, Cg, St,
          Mutable,                \* functions that can change in place
          MaxVer, MaxMem,
          Defects                 \* set of <<what, kind, port, family>>

VARIABLES m, made, held, cb, cache

vars == <<m, made, held, cb, cache>>

None == "-"
Det == DetF \cup DetMu \cup DetSg
Ids == Det \cup Prob \cup Im \cup Edp \cup Frag \cup Loss \cup Cg \cup St

Kind(x) == CASE x \in Det -> "det" [] x \in Prob -> "prob" [] x \in Im -> "im"
             [] x \in Edp -> "edp" [] x \in Frag -> "frag" [] x \in Loss -> "loss"
             [] x \in Cg -> "cg" [] x \in St -> "st"

\* the kind of thing that may be replaced by another
Class(x) == IF x \in DetF THEN "detf" ELSE IF x \in DetMu THEN "detmu"
            ELSE IF x \in DetSg THEN "detsg" ELSE Kind(x)

Ports == {"mu", "sg", "f", "im", "p1", "p2", "edp", "frag", "cost", "delay"}
NoRef == [p \in Ports |-> None]

(* Families of cached results per kind. *)
Families(k) == CASE k = "im" -> {"crate", "drate"}
                 [] k = "edp" -> {"lam"}
                 [] k = "cg" -> {"costedp", "delayedp", "ecostim", "sdcostim", "edelayim",
                                 "sddelayim", "annual", "lamcost", "rate"}
                 [] k = "st" -> {"annual"}
                 [] OTHER -> {}
AllFamilies == {"crate", "drate", "lam", "costedp", "delayedp", "ecostim", "sdcostim",
                "edelayim", "sddelayim", "annual", "lamcost", "rate"}
CostFam == {"ecostim", "sdcostim", "annual", "lamcost", "costedp"}
DelayFam == {"edelayim", "sddelayim", "delayedp"}

(***************************************************************************)
(* What an object means: its definition, all the way down.                 *)
(***************************************************************************)
RECURSIVE Def(_, _)
Def(mm, x) ==
  CASE x = None -> [k |-> "none"]
    [] x \in Det -> [k |-> "det", id |-> x, v |-> mm.ver[x]]
    [] x \in Prob -> [k |-> "prob", id |-> x, mu |-> Def(mm, mm.ref[x].mu), sg |-> Def(mm, mm.ref[x].sg)]
    [] x \in Im -> [k |-> "im", id |-> x, f |-> Def(mm, mm.ref[x].f), col |-> mm.col[x], dem |-> mm.dem[x]]
    [] x \in Edp -> [k |-> "edp", id |-> x, im |-> Def(mm, mm.ref[x].im),
                     p1 |-> Def(mm, mm.ref[x].p1), p2 |-> Def(mm, mm.ref[x].p2)]
    [] x \in Frag -> [k |-> "frag", id |-> x]
    [] x \in Loss -> [k |-> "loss", id |-> x, v |-> mm.ver[x]]
    [] x \in Cg -> [k |-> "cg", id |-> x, edp |-> Def(mm, mm.ref[x].edp), frag |-> Def(mm, mm.ref[x].frag),
                    cost |-> Def(mm, mm.ref[x].cost), delay |-> Def(mm, mm.ref[x].delay)]
    [] x \in St -> [k |-> "st", id |-> x, reb |-> mm.reb[x], dmo |-> mm.dmo[x],
                    mem |-> [i \in 1..Len(mm.mem[x]) |-> Def(mm, mm.mem[x][i].cg)]]

(* What one family of results of an object depends on. *)
QDef(mm, x, q) ==
  CASE x \in Im /\ q = "crate" -> <<Def(mm, mm.ref[x].f), mm.col[x]>>
    [] x \in Im /\ q = "drate" -> <<Def(mm, mm.ref[x].f), mm.col[x], mm.dem[x]>>
    [] x \in Cg /\ q = "costedp" -> <<Def(mm, mm.ref[x].frag), Def(mm, mm.ref[x].cost)>>
    [] x \in Cg /\ q = "delayedp" -> <<Def(mm, mm.ref[x].frag), Def(mm, mm.ref[x].delay)>>
    [] x \in Cg /\ q \in CostFam -> <<Def(mm, mm.ref[x].edp), Def(mm, mm.ref[x].frag), Def(mm, mm.ref[x].cost)>>
    [] x \in Cg /\ q \in DelayFam -> <<Def(mm, mm.ref[x].edp), Def(mm, mm.ref[x].frag), Def(mm, mm.ref[x].delay)>>
    [] x \in Cg /\ q = "rate" -> <<Def(mm, mm.ref[x].edp), Def(mm, mm.ref[x].frag)>>
    [] OTHER -> <<Def(mm, x)>>

(***************************************************************************)
(* Which caches a notification through a port clears, and whether the      *)
(* client passes it on.                                                    *)
(***************************************************************************)
Has(what, k, p, q) == <<what, k, p, q>> \in Defects
Clears(k, p) ==
  {q \in Families(k) :
     /\ ~ Has("clear", k, p, q)
     /\ \/ k \in {"im", "edp", "st"}
        \/ k = "cg" /\ p \in {"edp", "frag"}
        \/ k = "cg" /\ p = "cost" /\ q \in CostFam \cup {"rate", "delayedp"}
        \/ k = "cg" /\ p = "delay" /\ q \in DelayFam}
PassesOn(k, p) == k \in {"prob", "im", "edp", "cg"} /\ ~ Has("notify", k, p, "")

PortKind(c, p) == IF c \in St THEN (IF p = "im" THEN "im" ELSE "member") ELSE p

RECURSIVE Closure(_, _, _)
Closure(cbs, todo, done) ==
  IF todo = {} THEN done
  ELSE LET next == UNION {IF PassesOn(Kind(e[1]), PortKind(e[1], e[2])) THEN cbs[e[1]] ELSE {} : e \in todo}
       IN Closure(cbs, next \ (done \cup todo), done \cup todo)

ClearedBy(evs) == UNION {{<<e[1], q>> : q \in Clears(Kind(e[1]), PortKind(e[1], e[2]))} : e \in evs}

(* Alive objects: held, or referred to by something alive. *)
Refs(mm, x) == ({mm.ref[x][p] : p \in Ports} \ {None})
               \cup (IF x \in St THEN {mm.mem[x][i].cg : i \in 1..Len(mm.mem[x])} \cup ({mm.sim[x]} \ {None}) ELSE {})
RECURSIVE Reach(_, _, _)
Reach(mm, todo, done) == IF todo = {} THEN done
                         ELSE LET d == done \cup todo IN Reach(mm, UNION {Refs(mm, x) : x \in todo} \ d, d)
Live(mm, xs) == Reach(mm, xs, {})

(* Destroyed objects unsubscribe. *)
Prune(cbs, live) == [x \in Ids |-> IF cbs[x] = {} THEN {} ELSE {e \in cbs[x] : e[1] \in live \/ Has("unsub", Kind(e[1]), PortKind(e[1], e[2]), "")}]

AllEmpty == [q \in AllFamilies |-> "empty"]
(* The new state of the caches when mm replaces m and `cleared` were cleared. *)
Caches(mm, cleared) ==
  [x \in Ids |-> IF cache[x] = AllEmpty THEN AllEmpty ELSE
    [q \in AllFamilies |->
     IF cache[x][q] = "empty" \/ <<x, q>> \in cleared THEN "empty"
     ELSE IF QDef(mm, x, q) # QDef(m, x, q) THEN "stale"
     ELSE cache[x][q]]]

StructOK(mm, xs) == \A s \in St \cap xs : \A i \in 1..Len(mm.mem[s]) :
                       mm.ref[mm.ref[mm.mem[s][i].cg].edp].im = mm.sim[s]

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Init ==
  /\ m = [ref |-> [x \in Ids |-> NoRef], ver |-> [x \in Ids |-> 1],
          col |-> [x \in Im |-> 0], dem |-> [x \in Im |-> 0],
          mem |-> [s \in St |-> <<>>], sim |-> [s \in St |-> None],
          reb |-> [s \in St |-> 0], dmo |-> [s \in St |-> 0]]
  /\ made = {} /\ held = {}
  /\ cb = [x \in Ids |-> {}]
  /\ cache = [x \in Ids |-> [q \in AllFamilies |-> "empty"]]

Subscribe(cbs, x, r) == [y \in Ids |-> cbs[y] \cup {<<x, p>> : p \in {p \in Ports : r[p] = y}}]

WellFormed(x, r) ==
  CASE x \in Prob -> r.mu \in DetMu /\ r.sg \in DetSg
    [] x \in Im -> r.f \in DetF
    [] x \in Edp -> r.im \in Im /\ r.p1 \in Prob /\ (IF x \in CEdp THEN r.p2 \in Prob ELSE r.p2 = None)
    [] x \in Cg -> r.edp \in Edp /\ r.frag \in Frag
    [] OTHER -> TRUE

New(x, r) ==
  /\ x \notin made
  /\ WellFormed(x, r)
  /\ \A p \in Ports : r[p] = None \/ r[p] \in held
  /\ made' = made \cup {x} /\ held' = held \cup {x}
  /\ m' = [m EXCEPT !.ref[x] = r]
  /\ cb' = Subscribe(cb, x, r)
  /\ UNCHANGED <<cache>>

Drop(x) ==
  /\ x \in held
  /\ held' = held \ {x}
  /\ cb' = Prune(cb, Live(m, held'))
  /\ UNCHANGED <<m, made, cache>>

(* A function changes in place, and says so. *)
Change(x) ==
  /\ x \in held \cap Mutable /\ m.ver[x] < MaxVer
  /\ m' = [m EXCEPT !.ver[x] = @ + 1]
  /\ cache' = Caches(m', ClearedBy(Closure(cb, cb[x], {})))
  /\ UNCHANGED <<made, held, cb>>

(* y takes x's place with everyone who depends on x. *)
Replaced(mm, x, y, clients) ==
  [mm EXCEPT !.ref = [z \in Ids |-> [p \in Ports |-> IF <<z, p>> \in clients THEN y ELSE mm.ref[z][p]]],
             !.mem = [s \in St |-> [i \in 1..Len(mm.mem[s]) |->
                        IF <<s, mm.mem[s][i].uid>> \in clients THEN [mm.mem[s][i] EXCEPT !.cg = y] ELSE mm.mem[s][i]]],
             !.sim = [s \in St |-> IF <<s, "im">> \in clients THEN y ELSE mm.sim[s]]]

Replace(x, y) ==
  /\ x \in held /\ y \in held /\ Class(x) = Class(y) /\ x \notin St
  /\ LET mm == Replaced(m, x, y, cb[x])
         cbs == IF x = y THEN (IF Has("self", "", "", "") THEN [cb EXCEPT ![x] = {}] ELSE cb)
                ELSE [cb EXCEPT ![y] = (IF Has("merge", "", "", "") THEN {} ELSE @) \cup cb[x], ![x] = {}]
     IN /\ StructOK(mm, made)
        /\ m' = mm
        /\ cache' = Caches(mm, ClearedBy(Closure(cbs, cb[x], {})))
        /\ cb' = Prune(cbs, Live(mm, held))
  /\ UNCHANGED <<made, held>>

SetFate(i, which, v) ==
  /\ i \in held \cap Im
  /\ IF which = "col" THEN m.col[i] # v /\ m' = [m EXCEPT !.col[i] = v]
                      ELSE m.dem[i] # v /\ m' = [m EXCEPT !.dem[i] = v]
  /\ cache' = Caches(m', ClearedBy(Closure(cb, cb[i], {}))
                         \cup {<<i, q>> : q \in {q \in {"crate", "drate"} : ~ Has("clear", "im", which, q)}})
  /\ UNCHANGED <<made, held, cb>>

ImOf(mm, g) == mm.ref[mm.ref[g].edp].im

(* A subscription that nobody has: one for every membership. *)
Uid(n) == "u" \o ToString(n)
FreshUid == LET used == UNION {{e[2] : e \in cb[x]} : x \in Ids}
            IN Uid(CHOOSE n \in 1..50 : Uid(n) \notin used /\ \A k \in 1..(n-1) : Uid(k) \in used)

Add(s, g) ==
  /\ s \in held \cap St /\ g \in held \cap Cg
  /\ Len(m.mem[s]) < MaxMem
  /\ \/ m.mem[s] = <<>> \/ ImOf(m, g) = m.sim[s]
  /\ LET first == m.mem[s] = <<>>
         im == ImOf(m, g)
         old == m.sim[s]
         c1 == IF first /\ old # None THEN [cb EXCEPT ![old] = @ \ {<<s, "im">>}] ELSE cb
         c2 == IF first THEN [c1 EXCEPT ![im] = @ \cup {<<s, "im">>}] ELSE c1
     IN /\ m' = [m EXCEPT !.mem[s] = Append(@, [uid |-> FreshUid, cg |-> g]), !.sim[s] = IF first THEN im ELSE @]
        /\ cb' = Prune([c2 EXCEPT ![g] = @ \cup {<<s, FreshUid>>}], Live(m', held))
  /\ cache' = Caches(m', {<<s, "annual">>})
  /\ UNCHANGED <<made, held>>

(* A group on another intensity measure is rejected, without any effect. *)
AddRejected(s, g) ==
  /\ s \in held \cap St /\ g \in held \cap Cg
  /\ m.mem[s] # <<>> /\ ImOf(m, g) # m.sim[s]
  /\ UNCHANGED vars

Rem(s, g) ==
  /\ s \in held \cap St /\ g \in held \cap Cg
  /\ LET is == {i \in 1..Len(m.mem[s]) : m.mem[s][i].cg = g}
     IN IF is = {} THEN UNCHANGED vars
        ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j
             IN /\ m' = [m EXCEPT !.mem[s] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
                /\ cb' = Prune([cb EXCEPT ![g] = IF Has("unsub", "st", "rem", "") THEN @ ELSE @ \ {<<s, m.mem[s][i].uid>>}], Live(m', held))
                /\ cache' = Caches(m', IF Has("clear", "st", "rem", "annual") THEN {} ELSE {<<s, "annual">>})
                /\ UNCHANGED <<made, held>>

SetCost(s, which, v) ==
  /\ s \in held \cap St
  /\ IF which = "reb" THEN m.reb[s] # v /\ m' = [m EXCEPT !.reb[s] = v]
                      ELSE m.dmo[s] # v /\ m' = [m EXCEPT !.dmo[s] = v]
  /\ cache' = Caches(m', IF Has("clear", "st", which, "annual") THEN {} ELSE {<<s, "annual">>})
  /\ UNCHANGED <<made, held, cb>>

(* Families a query reads (and so fills), including those of other objects. *)
RECURSIVE Fills(_, _)
Fills(x, q) ==
  LET members == {m.mem[x][i].cg : i \in 1..Len(m.mem[x])}
  IN CASE x \in Im -> {<<x, q>>} \cap ({x} \X Families("im"))
       [] x \in Edp -> {<<x, q>>} \cap ({x} \X Families("edp"))
       [] x \in Cg -> ({<<x, q>>} \cap ({x} \X Families("cg")))
                      \cup (CASE q = "sdcostim" -> {<<x, "ecostim">>, <<x, "costedp">>}
                              [] q = "ecostim" -> {<<x, "costedp">>}
                              [] q \in {"annual", "lamcost", "distim"} -> {<<x, "ecostim">>, <<x, "sdcostim">>, <<x, "costedp">>}
                              [] q = "sddelayim" -> {<<x, "edelayim">>, <<x, "delayedp">>}
                              [] q = "edelayim" -> {<<x, "delayedp">>}
                              [] OTHER -> {})
       [] x \in St -> (IF q \in {"annual", "years"} THEN {<<x, "annual">>} ELSE {})
                      \cup (IF q # "n" THEN UNION {Fills(g, "distim") : g \in members} ELSE {})
       [] OTHER -> {}

Queries(k) == CASE k = "im" -> {"lam", "probs", "crate", "drate"}
                [] k = "edp" -> {"lam", "mom", "pex"}
                [] k = "cg" -> {"costedp", "delayedp", "ecostim", "sdcostim", "edelayim", "sddelayim",
                                "distim", "pds", "annual", "lamcost", "rate"}
                [] k = "st" -> {"n", "cost", "total", "fate", "deagg", "pdf", "annual", "years"}
                [] OTHER -> {}

ReadFill(x, qs) == LET f == UNION {Fills(x, q) : q \in qs}
                   IN [y \in Ids |-> [q \in AllFamilies |->
                        IF <<y, q>> \in f /\ cache[y][q] = "empty" THEN "fresh" ELSE cache[y][q]]]
Read(x, qs) ==
  /\ x \in held
  /\ qs \subseteq Queries(Kind(x)) /\ qs # {}
  /\ cache' = ReadFill(x, qs)
  /\ UNCHANGED <<m, made, held, cb>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
LiveNow == Live(m, held)

NoStaleResult == \/ \A x \in Ids : \A q \in AllFamilies : cache[x][q] # "stale"
                 \/ \A x \in LiveNow : \A q \in AllFamilies : cache[x][q] # "stale"

(* Subscriptions are exactly the references of live objects. *)
SubscriptionsExact ==
  LET live == LiveNow
      structs == St \cap live
      refs == UNION {{<<m.ref[c][p], <<c, p>>>> : p \in Ports} : c \in live \ St}
              \cup UNION {{<<m.mem[s][i].cg, <<s, m.mem[s][i].uid>>>> : i \in 1..Len(m.mem[s])} : s \in structs}
              \cup {<<m.sim[s], <<s, "im">>>> : s \in structs}
      subs == UNION {{<<x, e>> : e \in cb[x]} : x \in live}
  IN subs = {r \in refs : r[1] # None}

OneHazardPerStructure == StructOK(m, LiveNow)
=============================================================================
