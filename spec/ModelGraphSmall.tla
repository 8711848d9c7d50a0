-------------------------- MODULE ModelGraphSmall --------------------------
(* Exhaustive exploration of a small model; creation order fixed to keep   *)
(* it small: Setup makes the first objects, then every interleaving of     *)
(* operations is explored.                                                 *)
EXTENDS ModelGraph
CONSTANTS Ready,      \* objects that exist at the start, with their references
          Spare,      \* objects that may be made later, with their references
          StartMem,   \* members of the structures at the start
          DropSet, ReadAll, Fates

Refs0(x) == (x :> NoRef)
RefOf(tbl, x) == [p \in Ports |-> IF \E t \in tbl : t[1] = x /\ t[2] = p
                                  THEN (CHOOSE t \in tbl : t[1] = x /\ t[2] = p)[3] ELSE None]
InitSmall ==
  LET r == [x \in Ids |-> RefOf(Ready \cup Spare, x)]
      ready == Ids \ {t[1] : t \in Spare}
      mem(s) == SelectSeq(StartMem, LAMBDA t : t[1] = s)
      mm == [ref |-> [x \in Ids |-> IF x \in ready THEN r[x] ELSE NoRef], ver |-> [x \in Ids |-> 1],
             col |-> [x \in Im |-> 0], dem |-> [x \in Im |-> 0],
             mem |-> [s \in St |-> [i \in 1..Len(mem(s)) |-> [uid |-> Uid(i), cg |-> mem(s)[i][2]]]],
             sim |-> [s \in St |-> IF Len(mem(s)) = 0 THEN None ELSE r[r[mem(s)[1][2]].edp].im],
             reb |-> [s \in St |-> 0], dmo |-> [s \in St |-> 0]]
      subs(x) == {<<c, p>> \in (ready \ St) \X Ports : r[c][p] = x}
                 \cup UNION {{<<s, mm.mem[s][i].uid>> : i \in {i \in 1..Len(mm.mem[s]) : mm.mem[s][i].cg = x}} : s \in St}
                 \cup {<<s, "im">> : s \in {s \in St : mm.sim[s] = x}}
  IN /\ m = mm
     /\ made = ready /\ held = ready
     /\ cb = [x \in Ids |-> subs(x)]
     /\ cache = [x \in Ids |-> [q \in AllFamilies |-> "empty"]]

NextSmall ==
  \/ \E x \in {t[1] : t \in Spare} : New(x, RefOf(Spare, x))
  \/ \E x \in DropSet : Drop(x)
  \/ \E x \in Mutable : Change(x)
  \/ \E x \in held, y \in held : Replace(x, y)
  \/ \E i \in Im, w \in {"col", "dem"}, v \in Fates : SetFate(i, w, v)
  \/ \E s \in St, g \in Cg : Add(s, g) \/ AddRejected(s, g) \/ Rem(s, g)
  \/ \E s \in St, w \in {"reb", "dmo"}, v \in 1..1 : SetCost(s, w, v)
  \/ \E x \in held : IF ReadAll THEN Queries(Kind(x)) # {} /\ Read(x, Queries(Kind(x)))
                     ELSE \E q \in Queries(Kind(x)) : Read(x, {q})
SpecSmall == InitSmall /\ [][NextSmall]_vars
(* What the system does does not depend on the names of subscriptions. *)
=============================================================================
