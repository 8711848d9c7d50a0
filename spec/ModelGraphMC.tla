--------------------------- MODULE ModelGraphMC ----------------------------
(* Instances of ModelGraphSmall for exhaustive exploration, and, with      *)
(* `hist`, every sequence of at most MaxOps operations on a standard model *)
(* with all its results read before and in between (Emit).                 *)
EXTENDS ModelGraphSmall, Json
CONSTANTS MaxOps, MaxLevel
VARIABLE hist

InstA == {<<"p1","mu","m1">>, <<"p1","sg","g1">>, <<"p2","mu","m2">>, <<"p2","sg","g1">>,
          <<"i1","f","f1">>, <<"i2","f","f2">>, <<"e1","im","i1">>, <<"e1","p1","p1">>,
          <<"e3","im","i1">>, <<"e3","p1","p1">>, <<"e3","p2","p2">>}
InstB == {<<"p1","mu","m1">>, <<"p1","sg","g1">>, <<"i1","f","f1">>, 
          <<"e1","im","i1">>, <<"e1","p1","p1">>, <<"e2","im","i1">>, <<"e2","p1","p1">>,
          <<"c1","edp","e1">>, <<"c1","frag","k1">>, <<"c1","cost","l1">>, <<"c1","delay","l2">>,
          <<"c2","edp","e2">>, <<"c2","frag","k1">>, <<"c2","cost","l2">>, <<"c2","delay","l2">>}
MemB == <<<<"s1","c1">>>>
InstC == {<<"p1","mu","m1">>, <<"p1","sg","g1">>, <<"p2","mu","m2">>, <<"p2","sg","g2">>,
          <<"i1","f","f1">>, <<"i2","f","f2">>,
          <<"e1","im","i1">>, <<"e1","p1","p1">>, <<"e2","im","i1">>, <<"e2","p1","p2">>,
          <<"e3","im","i1">>, <<"e3","p1","p1">>, <<"e3","p2","p2">>,
          <<"c1","edp","e1">>, <<"c1","frag","k1">>, <<"c1","cost","l1">>, <<"c1","delay","l2">>,
          <<"c2","edp","e3">>, <<"c2","frag","k2">>, <<"c2","cost","l2">>, <<"c2","delay","l1">>,
          <<"c3","edp","e2">>, <<"c3","frag","k1">>, <<"c3","cost","l3">>, <<"c3","delay","l3">>}
MemC == <<<<"s1","c1">>, <<"s1","c2">>, <<"s2","c3">>>>
SpareC == {<<"p3","mu","m2">>, <<"p3","sg","g1">>}
NoSpare == {}
NoMem == <<>>

mcvars == <<vars, hist>>
(* Exhaustive exploration, without history. *)
InitX == InitSmall /\ hist = <<>>
NextX == NextSmall /\ UNCHANGED hist
SpecX == InitX /\ [][NextX]_mcvars

(* Everything that can be asked has been asked. *)
Swept == LET live == LiveNow IN [x \in Ids |-> [q \in AllFamilies |->
            IF x \in live /\ q \in Families(Kind(x)) /\ cache[x][q] = "empty" THEN "fresh" ELSE cache[x][q]]]
Log(op) == hist' = Append(hist, op)
OpStep ==
  \/ \E x \in Mutable : Change(x) /\ Log([op |-> "change", x |-> x, v |-> m.ver[x] + 1])
  \/ \E x \in held, y \in held : Replace(x, y) /\ Log([op |-> "replace", x |-> x, y |-> y])
  \/ \E i \in Im, w \in {"col", "dem"}, v \in Fates : SetFate(i, w, v) /\ Log([op |-> w, x |-> i, v |-> v])
  \/ \E s \in St, g \in Cg : Add(s, g) /\ Log([op |-> "add", x |-> s, y |-> g, ok |-> TRUE])
  \/ \E s \in St, g \in Cg : AddRejected(s, g) /\ Log([op |-> "add", x |-> s, y |-> g, ok |-> FALSE])
  \/ \E s \in St, g \in Cg : Rem(s, g) /\ Log([op |-> "rem", x |-> s, y |-> g])
  \/ \E s \in St, w \in {"reb", "dmo"}, v \in 1..1 : SetCost(s, w, v) /\ Log([op |-> w, x |-> s, v |-> v])
  \/ \E x \in DropSet : Drop(x) /\ Log([op |-> "drop", x |-> x])
Sweep == /\ cache # Swept
         /\ cache' = Swept /\ UNCHANGED <<m, made, held, cb, hist>>
InitP == /\ InitSmall
         /\ hist = <<>>
NextP == IF cache # Swept THEN Sweep ELSE Len(hist) < MaxOps /\ OpStep
SpecP == InitP /\ [][NextP]_mcvars
Emit == (Len(hist) > 0 /\ cache = Swept) =>
          PrintT("@@" \o ToJson([setup |-> Ready, start |-> StartMem, ops |-> hist, defs |-> [x \in held \cap (Im \cup Edp \cup Cg \cup St) |-> Def(m, x)],
                                 mem |-> [s \in held \cap St |-> [i \in 1..Len(m.mem[s]) |-> m.mem[s][i].cg]]]))
Bound == TLCGet("level") < MaxLevel
=============================================================================
