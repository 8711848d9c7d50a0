-------------------------------- MODULE Fate --------------------------------
(* What becomes of a structure at an intensity -- collapse, demolition or   *)
(* repair -- and what that costs, as the fragilities and costs are set,     *)
(* changed and unset again.                                                 *)
EXTENDS Terms, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES col, dem,      \* fragilities: <<>> (unset) or <<distribution>>
          reb, dmo,      \* costs: the same
          members,       \* component groups in the structure
          hist
vars == <<col, dem, reb, dmo, members, hist>>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

(* --- the rules ----------------------------------------------------------- *)
Of(d, x) == IF d = <<>> THEN N(0) ELSE AtMost(FromKind(d[1].k, R(d[1].a), R(d[1].b)), x)
Probs(x) == << <<"pC", Of(col, x)>>,
               <<"pD", IF dem = <<>> THEN N(0) ELSE Max(N(0), Sub(Of(dem, x), Ref("pC")))>>,
               <<"pR", Sub(N(1), Add(Ref("pC"), Ref("pD")))>> >>
CostTerms(d, m, v) == IF d = <<>> THEN << <<m, NotANumber>>, <<v, NotANumber>> >>
                      ELSE LET t == FromKind(d[1].k, R(d[1].a), R(d[1].b)) IN << <<m, MeanOf(t)>>, <<v, Sq(SdOf(t))>> >>
(* rm and rs: mean and deviation of the cost of repair, as reported          *)
Weighted1(m, p) == IfT(Eq(Ref(p), N(0)), N(0), Mul(Ref(m), Ref(p)))
Second(m, v, p) == IfT(Eq(Ref(p), N(0)), N(0), Mul(Add(Sq(Ref(m)), Ref(v)), Ref(p)))
Costs(x) ==
  Probs(x) \o CostTerms(reb, "cm", "cv") \o CostTerms(dmo, "dm", "dv")
  \o << <<"rv", Sq(Ref("rs"))>>,
        <<"total", Add(Add(Weighted1("rm", "pR"), Weighted1("dm", "pD")), Weighted1("cm", "pC"))>>,
        <<"second", Add(Add(Second("rm", "rv", "pR"), Second("dm", "dv", "pD")), Second("cm", "cv", "pC"))>>,
        <<"var", Sub(Ref("second"), Sq(Ref("total")))>>,
        <<"fr", Mul(Ref("rm"), Ref("pR"))>>, <<"fd", Mul(Ref("dm"), Ref("pD"))>>, <<"fc", Mul(Ref("cm"), Ref("pC"))>>,
        <<"nc", Mul(Ref("rm"), Sub(N(1), Ref("pC")))>>,
        <<"with", Add(Ref("nc"), Ref("fc"))>> >>

(* In whole percentages: however the two fragilities lie, the three are      *)
(* probabilities and add up to one.                                          *)
InitSmall == col \in 0..100 /\ dem \in 0..100 /\ reb = 0 /\ dmo = 0 /\ members = 0 /\ hist = <<>>
SpecSmall == InitSmall /\ [][UNCHANGED vars]_vars
PartitionOk == LET pD == IF dem > col THEN dem - col ELSE 0
                   pR == 100 - (col + pD)
               IN pD \in 0..100 /\ pR \in 0..100 /\ col + pD + pR = 100

(* --- behaviours ---------------------------------------------------------- *)
Fragilities == {[k |-> "mean_sdln", a |-> a, b |-> b] : a \in {<<1, 10>>, <<3, 10>>, <<6, 5>>, <<5, 1>>}, b \in {<<1, 20>>, <<2, 5>>, <<9, 10>>}}
               \cup {[k |-> "med_sdln", a |-> <<9, 10>>, b |-> <<47, 100>>], [k |-> "mu_sdln", a |-> <<-1, 1>>, b |-> <<3, 10>>],
                     [k |-> "mean_sd", a |-> <<3, 2>>, b |-> <<1, 2>>]}
CostDists == {[k |-> k, a |-> a, b |-> b] : k \in {"mean_sdln", "med_sdln"}, a \in {<<5, 1>>, <<140, 1>>, <<14000, 1>>}, b \in {<<0, 1>>, <<1, 10>>, <<7, 20>>}}
SetF(which) == \E none \in Pick(1..5) : \E d \in Pick(Fragilities) :
    LET v == IF none = 1 THEN <<>> ELSE <<d>> IN
    /\ IF which = "col" THEN col' = v /\ UNCHANGED dem ELSE dem' = v /\ UNCHANGED col
    /\ UNCHANGED <<reb, dmo, members>>
    /\ hist' = Append(hist, [op |-> which, d |-> [i \in 1..Len(v) |-> [k |-> v[i].k, a |-> R(v[i].a), b |-> R(v[i].b)]], ptr |-> RandomElement(BOOLEAN)])
SetC(which) == \E d \in Pick(CostDists) :
    /\ IF which = "rebuild" THEN reb' = <<d>> /\ UNCHANGED dmo ELSE dmo' = <<d>> /\ UNCHANGED reb
    /\ UNCHANGED <<col, dem, members>>
    /\ hist' = Append(hist, [op |-> which, d |-> [k |-> d.k, a |-> R(d.a), b |-> R(d.b)]])
(* rebuilding costs the same after demolition as after collapse, and is known *)
SetBoth == \E a \in Pick({<<7, 1>>, <<133, 10>>, <<1, 10>>, <<14000, 1>>}) : LET d == [k |-> "mean_sdln", a |-> a, b |-> <<0, 1>>] IN
    /\ reb' = <<d>> /\ dmo' = <<d>>
    /\ UNCHANGED <<col, dem, members>>
    /\ hist' = Append(hist, [op |-> "both", d |-> [k |-> d.k, a |-> R(d.a), b |-> R(d.b)]])
AddGroup == \E g \in Pick(1..3) :
    /\ members < 5 /\ members' = members + 1 /\ UNCHANGED <<col, dem, reb, dmo>>
    /\ hist' = Append(hist, [op |-> "add", g |-> g])
Ims == {<<0, 1>>, <<1, 50>>, <<1, 5>>, <<1, 2>>, <<9, 10>>, <<3, 2>>, <<5, 1>>, <<40, 1>>} \cup {<<n, 10>> : n \in 1..80}
Ask == \E x \in Pick(Ims) : \E s \in Pick(1..4) :
    /\ UNCHANGED <<col, dem, reb, dmo, members>>
    /\ IF s = 1 \/ members = 0 THEN hist' = Append(hist, [op |-> "probs", x |-> R(x), lets |-> Probs(R(x))])
       ELSE hist' = Append(hist, [op |-> "costs", x |-> R(x), lets |-> Costs(R(x)), reb |-> reb # <<>>, dmo |-> dmo # <<>>])
Years == \E y \in Pick({1, 2, 10, 50, 100}) : \E r \in Pick({<<1, 100>>, <<3, 50>>, <<1, 5>>}) :
    /\ members > 0 /\ UNCHANGED <<col, dem, reb, dmo, members>>
    /\ hist' = Append(hist, [op |-> "years", y |-> y, r |-> R(r), factor |-> Div(Sub(N(1), Exp(Mul(Mul(N(-1), R(r)), N(y)))), R(r))])
Init == col = <<>> /\ dem = <<>> /\ reb = <<>> /\ dmo = <<>> /\ members = 0 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in Pick(1..24) :
                CASE c <= 3 -> SetF("col") [] c \in 4..6 -> SetF("dem") [] c = 7 -> SetC("rebuild") [] c = 8 -> SetC("demo")
                  [] c = 9 -> AddGroup [] c = 10 -> SetBoth [] c = 11 -> Years [] OTHER -> Ask
           \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
