----------------------------- MODULE PyRegistry -----------------------------
(* The names of the scripting layer: one registry per kind of object.  A    *)
(* definition under a name makes that name stand for the new object, a      *)
(* definition without one, or one that is refused, leaves every name as it  *)
(* was, and clearing forgets them all.  Objects are numbered as they are    *)
(* made.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Names, Depth, Exhaustive
VARIABLES reg,     \* reg[k][n]: the object named n of kind k, or "-"
          made,    \* made[i] = <<kind, name>> of the i-th object
          order,   \* names of recorders, in the order in which they were first used
          hist
vars == <<reg, made, order, hist>>
Unnamed == "-"
None == "-"
Obj(i) == "o" \o ToString(i)
Nothing == [k \in Kinds |-> [n \in Names |-> None]]
Init == reg = Nothing /\ made = <<>> /\ order = <<>> /\ hist = <<>>

Record(s) == hist' = Append(hist, [s EXCEPT !.reg = reg', !.order = order'])
Op(o, k, n, how) == [op |-> o, k |-> k, n |-> n, how |-> how, reg |-> reg, order |-> order]

(* how: which of the ways of making an object of this kind *)
Ways(k) == CASE k = "detfn" -> {"powerlaw", "hyperbolic", "linear", "loglog"}
             [] k = "probfn" -> {"direct", "import"}
             [] k = "im" -> {"direct", "import"}
             [] k = "edp" -> {"simple", "compound"}
             [] k = "lossfn" -> {"simple", "bilevel"}
             [] k = "recorder" -> {"plain", "collrate", "structcost", "pdf"}
             [] OTHER -> {"direct"}
Define(k, n, how) ==
  LET o == Obj(Len(made) + 1) IN
  /\ made' = Append(made, <<k, n>>)
  /\ reg' = IF n = Unnamed THEN reg ELSE [reg EXCEPT ![k][n] = o]
  /\ order' = IF k = "recorder" /\ n # Unnamed /\ reg[k][n] = None THEN Append(order, n) ELSE order
  /\ Record(Op("def", k, n, how))
(* A definition that is refused: made from something missing, or of no known type *)
BadWays(k) == CASE k \in {"detfn"} -> {"type"} [] k = "probfn" -> {"type", "missing"} [] k = "recorder" -> {"noat"}
                [] k = "structure" -> {} [] k = "fragfn" -> {"options"} [] k = "lossfn" -> {"options"} [] OTHER -> {"missing"}
Refuse(k, n, how) == /\ UNCHANGED <<reg, made, order>> /\ Record(Op("bad", k, n, how))
Clear == /\ reg' = Nothing /\ order' = <<>> /\ UNCHANGED made /\ Record(Op("clear", "-", "-", "-"))

Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
Next == /\ Len(hist) < Depth
        /\ \E w \in (IF Exhaustive THEN {"def", "bad", "clear"} ELSE {<<"def", "def", "def", "def", "def", "def", "bad", "bad", "clear", "def", "def">>[i] : i \in Pick(1..11)}) :
           \E k \in Pick(Kinds) : \E n \in Pick(Names \cup {Unnamed}) :
             CASE w = "def" -> \E how \in Pick(IF Exhaustive THEN {CHOOSE x \in Ways(k) : TRUE} ELSE Ways(k)) : Define(k, n, how)
               [] w = "bad" -> IF BadWays(k) = {} THEN Define(k, n, "direct") ELSE \E how \in Pick(BadWays(k)) : Refuse(k, n, how)
               [] OTHER -> Clear
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))

(* What the registry says, said again from the history alone: the last      *)
(* accepted definition under that name and kind since everything was        *)
(* forgotten.                                                               *)
LastClear == LET c == {i \in 1..Len(hist) : hist[i].op = "clear"} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
Nth(i) == Obj(Cardinality({j \in 1..i : hist[j].op = "def"}))
Latest(k, n) == LET d == {i \in (LastClear + 1)..Len(hist) : hist[i].op = "def" /\ hist[i].k = k /\ hist[i].n = n}
                IN IF d = {} THEN None ELSE Nth(CHOOSE i \in d : \A j \in d : j <= i)
NamesAreLatest == \A k \in Kinds : \A n \in Names : reg[k][n] = Latest(k, n)
OneNameEach == \A k, l \in Kinds : \A n, m \in Names : reg[k][n] # None /\ reg[k][n] = reg[l][m] => k = l /\ n = m
RecordersListed == {order[i] : i \in 1..Len(order)} = {n \in Names : reg["recorder"][n] # None} /\ Len(order) = Cardinality({n \in Names : reg["recorder"][n] # None})
=============================================================================
