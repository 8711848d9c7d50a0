----------------------------- MODULE CacheImpl ------------------------------
(* The algorithm of CachedFunction and CachedValue (caching.h), one step   *)
(* per access to shared state or lock, run by several threads that call    *)
(* and clear.  A cached value is the case of one argument (and a waiting   *)
(* lock that lives as long as the value).                                  *)
(* Invariants: the rules of CacheRules in every interleaving; no deadlock; *)
(* and under fairness every call finishes.                                 *)
(* Defects: how the code used to be, or might become --                    *)
(*  "clear"   clearing does not take the lock, nor note that it happened   *)
(*  "nogen"   clearing does not note that it happened                      *)
(*  "poison"  an exception leaves the calculation marked as in process     *)
(*  "once"    the waiting lock is only held for the first calculation      *)
(*  "relook"  waiting callers take the result without looking again        *)
(*  "late"    the mark 'in process' is set after the lock was released     *)
EXTENDS CacheRules
CONSTANTS Threads, Args, Ops, Clearers, MayFail, Defects
None == 0
VARIABLES pc, arg, opsleft,      \* per thread
          lock, cache, inproc, wl, gen,   \* the cache: wl[a] is who holds a's waiting lock
          everran, mygen, myid, mycall, myclear, ids, g
vars == <<pc, arg, opsleft, lock, cache, inproc, wl, gen, everran, mygen, myid, mycall, myclear, ids, g>>
Obj == "f"
D(x) == x \in Defects

Init ==
  /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> CHOOSE a \in Args : TRUE]
  /\ opsleft = [t \in Threads |-> Ops]
  /\ lock = None /\ cache = [a \in Args |-> None] /\ inproc = [a \in Args |-> FALSE]
  /\ wl = [a \in Args |-> None] /\ gen = 0 /\ everran = [a \in Args |-> FALSE]
  /\ mygen = [t \in Threads |-> 0] /\ myid = [t \in Threads |-> 0]
  /\ mycall = [t \in Threads |-> 0] /\ myclear = [t \in Threads |-> 0]
  /\ ids = 1 /\ g = G0

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
shared == <<lock, cache, inproc, wl, gen, everran>>
ghost == <<ids, g>>
mine == <<mygen, myid, mycall, myclear>>

Start(t, a) ==
  /\ pc[t] = "idle" /\ opsleft[t] > 0
  /\ opsleft' = [opsleft EXCEPT ![t] = @ - 1] /\ arg' = [arg EXCEPT ![t] = a]
  /\ mycall' = [mycall EXCEPT ![t] = ids] /\ g' = CallStart(g, ids, t, Obj, a, FALSE) /\ ids' = ids + 1
  /\ Go(t, "acq") /\ UNCHANGED <<shared, mygen, myid, myclear>>
Acquire(t) == pc[t] = "acq" /\ lock = None /\ lock' = t /\ Go(t, "look")
              /\ UNCHANGED <<arg, opsleft, cache, inproc, wl, gen, everran, mine, ghost>>
Look(t) ==
  /\ pc[t] = "look"
  /\ Go(t, IF cache[arg[t]] # None THEN "take" ELSE IF inproc[arg[t]] THEN "rel" ELSE "claim")
  /\ UNCHANGED <<arg, opsleft, shared, mine, ghost>>
Claim(t) ==      \* mark the calculation as in process, and hold its waiting lock
  /\ pc[t] = "claim"
  /\ (D("once") /\ everran[arg[t]]) \/ wl[arg[t]] = None
  /\ wl' = IF D("once") /\ everran[arg[t]] THEN wl ELSE [wl EXCEPT ![arg[t]] = t]
  /\ inproc' = IF D("late") THEN inproc ELSE [inproc EXCEPT ![arg[t]] = TRUE]
  /\ mygen' = [mygen EXCEPT ![t] = gen]
  /\ everran' = [everran EXCEPT ![arg[t]] = TRUE]
  /\ Go(t, "relcalc") /\ UNCHANGED <<arg, opsleft, lock, cache, gen, myid, mycall, myclear, ghost>>
ReleaseToCalc(t) == pc[t] = "relcalc" /\ lock' = None /\ Go(t, "calc")
                    /\ UNCHANGED <<arg, opsleft, cache, inproc, wl, gen, everran, mine, ghost>>
Calc(t) ==
  /\ pc[t] = "calc"
  /\ myid' = [myid EXCEPT ![t] = ids] /\ g' = CalcStart(g, ids, t, Obj, arg[t]) /\ ids' = ids + 1
  /\ inproc' = [inproc EXCEPT ![arg[t]] = TRUE]
  /\ Go(t, "calcing") /\ UNCHANGED <<arg, opsleft, lock, cache, wl, gen, everran, mygen, mycall, myclear>>
CalcDone(t) == pc[t] = "calcing" /\ g' = CalcEnd(g, myid[t], TRUE) /\ Go(t, "acqstore")
               /\ UNCHANGED <<arg, opsleft, shared, mine, ids>>
CalcFails(t) == pc[t] = "calcing" /\ MayFail /\ g' = CalcEnd(g, myid[t], FALSE)
                /\ Go(t, IF D("poison") THEN "raise" ELSE "acqfail")
                /\ UNCHANGED <<arg, opsleft, shared, mine, ids>>
AcquireStore(t) == pc[t] \in {"acqstore", "acqfail"} /\ lock = None /\ lock' = t
                   /\ Go(t, IF pc[t] = "acqstore" THEN "store" ELSE "forget")
                   /\ UNCHANGED <<arg, opsleft, cache, inproc, wl, gen, everran, mine, ghost>>
Free(t) == [wl EXCEPT ![arg[t]] = IF @ = t THEN None ELSE @]
Store(t) ==
  /\ pc[t] = "store"
  /\ cache' = IF mygen[t] = gen \/ D("nogen") \/ D("clear") THEN [cache EXCEPT ![arg[t]] = myid[t]] ELSE cache
  /\ inproc' = [inproc EXCEPT ![arg[t]] = FALSE] /\ wl' = Free(t)
  /\ lock' = None
  /\ Go(t, "retown") /\ UNCHANGED <<arg, opsleft, gen, everran, mine, ghost>>
Forget(t) ==
  /\ pc[t] = "forget"
  /\ inproc' = [inproc EXCEPT ![arg[t]] = FALSE] /\ wl' = Free(t) /\ lock' = None
  /\ Go(t, "raise") /\ UNCHANGED <<arg, opsleft, cache, gen, everran, mine, ghost>>
Release(t) == pc[t] = "rel" /\ lock' = None /\ Go(t, "wait")
              /\ UNCHANGED <<arg, opsleft, cache, inproc, wl, gen, everran, mine, ghost>>
(* Wait for the waiting lock (and let the next one have it at once). *)
Wait(t) == pc[t] = "wait" /\ wl[arg[t]] = None /\ Go(t, "reacq")
           /\ UNCHANGED <<arg, opsleft, shared, mine, ghost>>
Reacquire(t) == pc[t] = "reacq" /\ lock = None /\ lock' = t /\ Go(t, IF D("relook") \/ D("once") THEN "take" ELSE "look")
                /\ UNCHANGED <<arg, opsleft, cache, inproc, wl, gen, everran, mine, ghost>>
Take(t) == pc[t] = "take" /\ myid' = [myid EXCEPT ![t] = cache[arg[t]]] /\ lock' = None
           /\ Go(t, "ret") /\ UNCHANGED <<arg, opsleft, cache, inproc, wl, gen, everran, mygen, mycall, myclear, ghost>>
Return(t) == pc[t] \in {"ret", "retown", "raise"} /\ g' = CallEnd(g, mycall[t]) /\ Go(t, "idle")
             /\ UNCHANGED <<arg, opsleft, shared, mine, ids>>

ClearBegin(t) ==
  /\ pc[t] = "idle" /\ opsleft[t] > 0 /\ t \in Clearers
  /\ opsleft' = [opsleft EXCEPT ![t] = @ - 1]
  /\ myclear' = [myclear EXCEPT ![t] = ids] /\ g' = ClearStart(g, ids, Obj) /\ ids' = ids + 1
  /\ Go(t, "clearacq") /\ UNCHANGED <<arg, shared, mygen, myid, mycall>>
ClearAcquire(t) == /\ pc[t] = "clearacq"
                   /\ D("clear") \/ lock = None
                   /\ lock' = IF D("clear") THEN lock ELSE t
                   /\ Go(t, "clear") /\ UNCHANGED <<arg, opsleft, cache, inproc, wl, gen, everran, mine, ghost>>
Clear(t) == /\ pc[t] = "clear" /\ cache' = [a \in Args |-> None] /\ gen' = gen + 1
            /\ lock' = IF D("clear") THEN lock ELSE None
            /\ Go(t, "cleared") /\ UNCHANGED <<arg, opsleft, inproc, wl, everran, mine, ghost>>
ClearFinish(t) == pc[t] = "cleared" /\ g' = ClearEnd(g, myclear[t]) /\ Go(t, "idle")
                  /\ UNCHANGED <<arg, opsleft, shared, mine, ids>>

Step(t) == \/ Acquire(t) \/ Look(t) \/ Claim(t) \/ ReleaseToCalc(t) \/ Calc(t) \/ CalcDone(t) \/ CalcFails(t)
           \/ AcquireStore(t) \/ Store(t) \/ Forget(t) \/ Release(t) \/ Wait(t) \/ Reacquire(t) \/ Take(t) \/ Return(t)
           \/ ClearAcquire(t) \/ Clear(t) \/ ClearFinish(t)
Next == \E t \in Threads : Step(t) \/ ClearBegin(t) \/ \E a \in Args : Start(t, a)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Threads : WF_vars(Step(t))

SingleFlight == \A t \in Threads : pc[t] = "calc" => CalcAllowed(g, t, Obj, arg[t])
RightResult == \A t \in Threads : pc[t] \in {"ret", "retown"} => RetAllowed(g, mycall[t], myid[t])
RightException == \A t \in Threads : pc[t] = "raise" => ExcAllowed(g, mycall[t], myid[t])
NoDeadlock == (\E t \in Threads : pc[t] # "idle") => \E t \in Threads : ENABLED Step(t)
(* Calls for an argument only wait for calculations of that argument: at a *)
(* calculation nobody holds the lock of the whole cache.                   *)
Independent == \A t \in Threads : pc[t] = "calcing" => lock # t
EveryCallFinishes == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
