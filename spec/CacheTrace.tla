----------------------------- MODULE CacheTrace -----------------------------
(* Executions recorded from the real caches (harness/cachedrv.cpp) against *)
(* the rules.  A trace is a sequence of events.                            *)
EXTENDS CacheRules, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, g, dead     \* dead: destroyed objects
vars == <<tr, i, g, dead>>
Ev == Traces[tr][i]
Init == tr \in 1..Len(Traces) /\ i = 1 /\ g = G0 /\ dead = {}

Legal(e) ==
  CASE e.e = "call" -> e.o \notin dead
    [] e.e = "calc" -> CalcAllowed(g, e.t, e.o, e.a)
    [] e.e = "done" -> g.calcs[e.id].st = "running"
    [] e.e = "fail" -> g.calcs[e.id].st = "running"
    [] e.e = "ret" -> RetAllowed(g, e.n, e.id)
    [] e.e = "exc" -> ExcAllowed(g, e.n, e.id)
    [] e.e \in {"clr", "clrd", "new", "newd", "del", "deld"} -> TRUE
    [] e.e = "end" -> \A n \in DOMAIN g.calls : ~ g.calls[n].open
    [] OTHER -> FALSE      \* deadlock, killed
Effect(e) ==
  CASE e.e = "call" -> CallStart(g, e.n, e.t, e.o, e.a, e.fresh)
    [] e.e = "calc" -> CalcStart(g, e.id, e.t, e.o, e.a)
    [] e.e = "done" -> CalcEnd(g, e.id, TRUE)
    [] e.e = "fail" -> CalcEnd(g, e.id, FALSE)
    [] e.e \in {"ret", "exc"} -> CallEnd(g, e.n)
    [] e.e = "clr" -> ClearStart(g, e.k, e.o)
    [] e.e = "clrd" -> ClearEnd(g, e.k)
    [] e.e = "new" -> Created(g, e.o)
    [] OTHER -> g
Next == /\ i <= Len(Traces[tr])
        /\ Legal(Ev)
        /\ g' = Effect(Ev)
        /\ dead' = IF Ev.e = "del" THEN dead \cup {Ev.o} ELSE IF Ev.e = "new" THEN dead \ {Ev.o} ELSE dead
        /\ i' = i + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Verdict == /\ (i > Len(Traces[tr])) => PrintT("@@" \o ToJson([t |-> tr, i |-> 0]))
           /\ (i <= Len(Traces[tr]) /\ ~ Legal(Ev)) => PrintT("@@" \o ToJson([t |-> tr, i |-> i]))
=============================================================================
