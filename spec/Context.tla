----------------------------- MODULE Context -----------------------------
(* Threads of (nested) parallel regions enter and leave contexts.          *)
(* A thread is the path that leads to it: <<>> is the initial one, and      *)
(* Append(p, i) the i-th of the team that p has started.                   *)
(* The tree of the implementation is specified as well and checked (TLC)   *)
(* to show every thread its own trail.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Levels, Team, High,   \* nesting of regions, size of a team, contexts per thread
          Depth, Lazy
VARIABLES live,    \* threads
          trail,   \* of each its own contexts, in the order they were entered
          size,    \* of each the size of the team it has started, or 0
          tree,    \* the implementation: nodes [text, vec] by their path from the root
          n, hist
vars == <<live, trail, size, tree, n, hist>>
Pick(S) == IF S = {} THEN {} ELSE IF Lazy THEN {RandomElement(S)} ELSE S

(* ---- what is to be seen ---- *)
Prefixes(p) == [i \in 1..(Len(p) + 1) |-> SubSeq(p, 1, i - 1)]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Text(p) == LET ps == Prefixes(p) IN Concat([i \in 1..Len(ps) |-> trail[ps[i]]])
Free == {p \in live : size[p] = 0}      \* not waiting for a team

(* ---- the implementation's tree ---- *)
Node == [text |-> <<>>, vec |-> <<>>]
(* the way to the node of a thread: the ancestors' numbers, from level 0 *)
Way(p) == IF p = <<>> THEN <<>> ELSE <<0>> \o p
TeamAt(p, i) == IF i = 0 THEN 1 ELSE size[SubSeq(p, 1, i - 1)]
(* LockContext: make what is missing on the way *)
RECURSIVE Walk(_, _, _)
Walk(t, p, i) ==
  IF p = <<>> \/ i > Len(p) THEN t
  ELSE LET at == SubSeq(Way(p), 1, i)
           k == Way(p)[i + 1]
           v == t[at].vec
           v1 == IF Len(v) < TeamAt(p, i) THEN [j \in 1..TeamAt(p, i) |-> j <= Len(v) /\ v[j]] ELSE v
           kid == Append(at, k)
           t1 == [t EXCEPT ![at].vec = [v1 EXCEPT ![k + 1] = TRUE]]
           t2 == IF v1[k + 1] THEN t1 ELSE [x \in DOMAIN t1 \cup {kid} |-> IF x = kid THEN Node ELSE t1[x]]
       IN Walk(t2, p, i + 1)
Below(x, at) == Len(x) > Len(at) /\ SubSeq(x, 1, Len(at)) = at
(* the children of a node are thrown away whenever its text changes *)
Clip(t, at) == [x \in {y \in DOMAIN t : ~Below(y, at)} |-> IF x = at THEN [t[x] EXCEPT !.vec = <<>>] ELSE t[x]]
TreePush(p, c) == LET t == Walk(tree, p, 0) IN Clip([t EXCEPT ![Way(p)].text = Append(@, c)], Way(p))
TreePop(p) == LET t == Walk(tree, p, 0) IN Clip([t EXCEPT ![Way(p)].text = SubSeq(@, 1, Len(@) - 1)], Way(p))
RECURSIVE TreeFrom(_, _, _)
TreeFrom(p, at, i) ==
  tree[at].text \o (IF i > Len(p) THEN <<>>
                    ELSE LET k == IF i = 0 THEN 0 ELSE p[i]
                         IN IF Len(tree[at].vec) <= k \/ ~tree[at].vec[k + 1] THEN <<>> ELSE TreeFrom(p, Append(at, k), i + 1))
TreeText(p) == TreeFrom(p, <<>>, 0)

Init == /\ live = {<<>>} /\ trail = [p \in {<<>>} |-> <<>>] /\ size = [p \in {<<>>} |-> 0]
        /\ tree = [p \in {<<>>} |-> Node] /\ n = 0 /\ hist = <<>>
Say(p, op, a, see) == hist' = IF Lazy THEN Append(hist, [p |-> p, o |-> op, a |-> a, see |-> see]) ELSE <<>>
Enter(p) == /\ Len(trail[p]) < High
            /\ trail' = [trail EXCEPT ![p] = Append(@, n)] /\ n' = n + 1
            /\ tree' = TreePush(p, n)
            /\ UNCHANGED <<live, size>> /\ Say(p, "enter", n, Append(Text(p), n))
Leave(p) == /\ trail[p] # <<>>
            /\ trail' = [trail EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
            /\ tree' = TreePop(p)
            /\ UNCHANGED <<live, size, n>> /\ Say(p, "leave", 0, SubSeq(Text(p), 1, Len(Text(p)) - 1))
Look(p) == UNCHANGED <<live, trail, size, tree, n>> /\ Say(p, "look", 0, Text(p))
Fork(p) == /\ Len(p) < Levels
           /\ \E k \in Pick(1..Team) :
                LET kids == {Append(p, i) : i \in 0..(k - 1)}
                IN /\ live' = live \cup kids
                   /\ trail' = [q \in live \cup kids |-> IF q \in live THEN trail[q] ELSE <<>>]
                   /\ size' = [q \in live \cup kids |-> IF q = p THEN k ELSE IF q \in live THEN size[q] ELSE 0]
                   /\ UNCHANGED <<tree, n>> /\ Say(p, "fork", k, <<>>)
Kids(p) == {q \in live : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}
Join(p) == /\ size[p] > 0
           /\ \A q \in Kids(p) : size[q] = 0 /\ trail[q] = <<>>
           /\ live' = live \ Kids(p)
           /\ trail' = [q \in live' |-> trail[q]]
           /\ size' = [q \in live' |-> IF q = p THEN 0 ELSE size[q]]
           /\ UNCHANGED <<tree, n>> /\ Say(p, "join", 0, <<>>)
Step == \E p \in live : IF size[p] > 0 THEN Join(p) ELSE Enter(p) \/ Leave(p) \/ Fork(p) \/ Look(p)
(* winding down: nothing new is started *)
End == \E p \in live : IF size[p] > 0 THEN Join(p) ELSE Leave(p)
Joinable == {p \in live : size[p] > 0 /\ \A q \in Kids(p) : size[q] = 0 /\ trail[q] = <<>>}
Random == \E p \in Pick(Free) : \E k \in Pick(1..10) :
            CASE k \in 1..4 /\ Len(trail[p]) < High -> Enter(p)
              [] k \in {5, 6} /\ trail[p] # <<>> -> Leave(p)
              [] k \in {7, 8} /\ Len(p) < Levels /\ Cardinality(live) < 14 -> Fork(p)
              [] k = 9 /\ Joinable # {} -> \E q \in Pick(Joinable) : Join(q)
              [] OTHER -> Look(p)
Next == IF ~Lazy THEN Step
        ELSE IF Len(hist) < Depth THEN Random
        ELSE IF Joinable # {} THEN \E q \in Pick(Joinable) : Join(q)
        ELSE \E p \in Pick({q \in Free : trail[q] # <<>>}) : Leave(p)
Spec == Init /\ [][Next]_vars
Over == live = {<<>>} /\ trail[<<>>] = <<>>
Emit == (Len(hist) >= Depth /\ Over) => PrintT("@@" \o ToJson(hist))
Bound == n <= 2 * High + 1

(* ---- what it guarantees ---- *)
Mirrors == \A p \in live : TreeText(p) = Text(p)
Owners == \A p \in live : \A q \in live : p # q => \A i \in 1..Len(trail[p]) : \A j \in 1..Len(trail[q]) : trail[p][i] # trail[q][j]
(* a thread sees another's context only if the other is among its ancestors *)
NoLeak == \A p \in live : \A q \in live :
    (\E i \in 1..Len(trail[q]) : \E j \in 1..Len(Text(p)) : Text(p)[j] = trail[q][i]) => (Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q)
(* one thread's step changes what another sees only below it *)
Undisturbed == [][\A p \in live \cap live' : \A q \in live \cap live' : (trail[q] # trail'[q] /\ p # q /\ trail[p] = trail'[p] /\ ~Below(p, q)) => Text(p) = Text(p)']_vars
=============================================================================
