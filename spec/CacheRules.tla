----------------------------- MODULE CacheRules -----------------------------
(* What callers of cached functions and values may rely on, in terms of    *)
(* what they can see: calls, calculations, clears, and what calls return.  *)
(* The bookkeeping g is used twice: CacheImpl checks that the algorithm    *)
(* follows the rules in every interleaving, CacheTrace that what was       *)
(* recorded from the real code does.                                       *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

G0 == [calls |-> <<>>, calcs |-> <<>>, clears |-> <<>>]
Covers(p, o) == p = "*" \/ p = o

(* A call n of thread t to object o with argument a; fresh: an argument    *)
(* that is not a number, or a function whose cache is disabled.            *)
CallStart(g, n, t, o, a, fresh) ==
  [g EXCEPT !.calls = @ @@ (n :> [t |-> t, o |-> o, a |-> a, fresh |-> fresh, open |-> TRUE,
      before |-> DOMAIN g.calcs,
      cleared |-> \E k \in DOMAIN g.clears : Covers(g.clears[k].o, o),   \* a clear was under way at some time during the call
      forbidden |-> {c \in DOMAIN g.calcs : g.calcs[c].old}])]

(* A calculation may only start on behalf of a call of its thread, and     *)
(* only if no other calculation for the argument is running or stored:     *)
(* every earlier one failed, or a clear has come since the call it was     *)
(* made for began (the calculation itself may be seen to start later).     *)
CalcAllowed(g, t, o, a) ==
  \E n \in DOMAIN g.calls :
    LET c == g.calls[n] IN
    /\ c.open /\ c.t = t /\ c.o = o /\ c.a = a
    /\ c.fresh \/ \A k \in DOMAIN g.calcs :
         (g.calcs[k].o = o /\ g.calcs[k].a = a) => (g.calcs[k].st = "failed" \/ g.calcs[k].touched)
CalcStart(g, id, t, o, a) ==
  [g EXCEPT !.calcs = @ @@ (id :> [t |-> t, o |-> o, a |-> a, st |-> "running", old |-> FALSE,
      touched |-> \E n \in DOMAIN g.calls : LET c == g.calls[n] IN c.open /\ c.t = t /\ c.o = o /\ c.a = a /\ c.cleared])]
CalcEnd(g, id, ok) == [g EXCEPT !.calcs[id].st = IF ok THEN "done" ELSE "failed"]

ClearStart(g, k, p) ==
  LET hit == {c \in DOMAIN g.calcs : Covers(p, g.calcs[c].o)}
  IN [g EXCEPT !.clears = @ @@ (k :> [o |-> p, pre |-> hit]),
               !.calls = [n \in DOMAIN g.calls |-> IF g.calls[n].open /\ Covers(p, g.calls[n].o) THEN [g.calls[n] EXCEPT !.cleared = TRUE] ELSE g.calls[n]],
               !.calcs = [c \in DOMAIN g.calcs |-> IF c \in hit THEN [g.calcs[c] EXCEPT !.touched = TRUE] ELSE g.calcs[c]]]
(* From now on, calls must not be given results of calculations that had   *)
(* started before the clear did.                                           *)
ClearEnd(g, k) ==
  [g EXCEPT !.calcs = [c \in DOMAIN g.calcs |-> IF c \in g.clears[k].pre THEN [g.calcs[c] EXCEPT !.old = TRUE] ELSE g.calcs[c]],
            !.clears = [j \in DOMAIN g.clears \ {k} |-> g.clears[j]]]

RetAllowed(g, n, id) ==
  /\ n \in DOMAIN g.calls /\ id \in DOMAIN g.calcs
  /\ LET c == g.calls[n] k == g.calcs[id] IN
     /\ c.open /\ k.o = c.o /\ k.a = c.a /\ k.st = "done"
     /\ id \notin c.forbidden
     /\ c.fresh => (k.t = c.t /\ id \notin c.before)
(* The exception reaches the caller on whose behalf the calculation ran.   *)
ExcAllowed(g, n, id) ==
  /\ n \in DOMAIN g.calls /\ id \in DOMAIN g.calcs
  /\ LET c == g.calls[n] k == g.calcs[id] IN
     c.open /\ k.o = c.o /\ k.a = c.a /\ k.st = "failed" /\ k.t = c.t /\ id \notin c.before
CallEnd(g, n) == [g EXCEPT !.calls[n].open = FALSE]

(* A new object of the same name knows nothing of its predecessor's results. *)
Created(g, o) ==
  [g EXCEPT !.calcs = [c \in DOMAIN g.calcs |-> IF g.calcs[c].o = o THEN [g.calcs[c] EXCEPT !.old = TRUE, !.touched = TRUE] ELSE g.calcs[c]]]
=============================================================================
