------------------------------ MODULE Recorder ------------------------------
(***************************************************************************)
(* Recorders: what is written, where, when they are run, one by one or all *)
(* in the order of their definition, while the model and the output        *)
(* directory change.                                                       *)
(*                                                                         *)
(*   recs    the recorders, in the order of their (first) definition       *)
(*   groups  the component groups: which demand and which fragility        *)
(*   mem     the members of the structure S                                *)
(*   dir     the output directory ("-": the current one)                   *)
(*   files   what every file holds: the runs whose tables are in it        *)
(*   runs    all the runs so far: where to, and whether to append          *)
(*                                                                         *)
(* A table is a header and a line per point; a cell says what to ask of    *)
(* what: the figures are those of the model at the time of the run.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Depth, Mode        \* Mode: "random", "each" (every kind of recorder), "files" (every order of runs)
VARIABLES recs, groups, mem, dir, files, runs, hist
vars == <<recs, groups, mem, dir, files, runs, hist>>

ImTypes == {"imrate", "collapse", "collrate"}
MomentTypes == {"probfn", "edpim"}
StateTypes == {"dsedp", "dsim"}
LossTypes == {"costedp", "costim", "delayedp", "delayim"}
ByTypes == {"structcost.by-edp", "structcost.by-frag", "structcost.by-fate"}
StTypes == ByTypes \cup {"structcost.annual", "structcost.npv", "totalcost", "deagg", "pdf"}
Types == {"detfn", "edprate", "dsrate", "costrate"} \cup MomentTypes \cup ImTypes \cup StateTypes \cup LossTypes \cup StTypes
NoPoints == {"collrate", "dsrate", "structcost.annual"}

GroupNames == {"C1", "C2", "C3", "C4"}
Demands == {"E1", "E2", "E3"}
StatesOf == [F1 |-> 3, F2 |-> 2]
Targets(t) == CASE t = "detfn" -> {"D1", "D2"} [] t = "probfn" -> {"Q1", "Q2"} [] t \in ImTypes -> {"HAZARD_A"}
                [] t \in {"edpim", "edprate"} -> Demands
                [] t \in StTypes -> {"S"} [] OTHER -> GroupNames

(* Columns *)
Moments == {"mean_x", "mean_ln_x", "median_x", "sd_ln_x", "sd_x"}
ColumnsOf(t, o) == CASE t \in MomentTypes -> Moments \cup {"0.16", "0.5", "0.84"}
                     [] t \in StateTypes -> {ToString(i) : i \in 1..StatesOf[groups[o][2]]}
                     [] t \in LossTypes -> {"mean_x", "sd_ln_x"}
                     [] t \in {"totalcost", "structcost.annual"} \cup ByTypes -> Moments
                     [] OTHER -> {}
DefaultColumns(t) == CASE t \in MomentTypes -> <<"mean_ln_x", "sd_ln_x">>
                       [] t \in LossTypes \cup {"totalcost"} -> <<"mean_x", "sd_ln_x">>
                       [] t \in {"structcost.annual"} \cup ByTypes -> <<"mean_x">>
                       [] OTHER -> <<>>
Cols(r) == IF r.cols = <<>> THEN DefaultColumns(r.t) ELSE r.cols

(* Categories of costs *)
Sorted(s) == SelectSeq(<<"E1", "E2", "E3", "F1", "F2">>, LAMBDA x : x \in s)
Cats(t) == IF t = "structcost.by-edp" THEN Sorted({groups[mem[i]][1] : i \in 1..Len(mem)})
           ELSE IF t = "structcost.by-frag" THEN Sorted({groups[mem[i]][2] : i \in 1..Len(mem)})
           ELSE <<"repair", "demo", "coll">>
InCat(t, c) == SelectSeq(mem, LAMBDA g : groups[g][IF t = "structcost.by-edp" THEN 1 ELSE 2] = c)

(* --- the table of recorder r now ---------------------------------------- *)
Row(r, f(_)) == [i \in 1..Len(r.at) |-> << <<"x", ToString(r.at[i])>> >> \o f(ToString(r.at[i]))]
Lab(s) == <<"label", s>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
Cells(cs, f(_)) == [i \in 1..Len(cs) |-> f(cs[i])]
XLabel(t) == CASE t \in {"detfn", "probfn"} -> "x" [] t \in {"edprate", "dsedp", "costedp", "delayedp"} -> "EDP" [] t = "costrate" -> "t"
               [] OTHER -> "HAZARD_A"
Table(r) ==
  LET t == r.t o == r.o cs == Cols(r) IN
  CASE t = "detfn" -> [head |-> <<"x", "y">>, rows |-> Row(r, LAMBDA x : << <<"value", o, x>> >>)]
    [] t \in MomentTypes -> [head |-> <<XLabel(t)>> \o cs, rows |-> Row(r, LAMBDA x : Cells(cs, LAMBDA c : <<"moment", o, x, c>>))]
    [] t \in {"imrate", "edprate"} -> [head |-> <<XLabel(t), "lambda">>, rows |-> Row(r, LAMBDA x : << <<"lambda", o, x>> >>)]
    [] t = "collapse" -> [head |-> <<XLabel(t), "p(Demolition)", "p(Collapse)">>, rows |-> Row(r, LAMBDA x : << <<"pdem", o, x>>, <<"pcol", o, x>> >>)]
    [] t = "collrate" -> [head |-> <<"IM", "rate(Demolition)", "rate(Collapse)">>, rows |-> << <<Lab(o), <<"rdem", o>>, <<"rcol", o>> >> >>]
    [] t \in StateTypes ->
         LET n == StatesOf[groups[o][2]] IN
         [head |-> <<XLabel(t)>> \o (IF r.cols = <<>> THEN [i \in 1..n |-> "DS" \o ToString(i)] \o <<"E(DS)">> ELSE r.cols),
          rows |-> Row(r, LAMBDA x : IF r.cols = <<>> THEN [i \in 1..n |-> <<t, o, x, ToString(i)>>] \o << <<t, o, x, "sum">> >>
                                     ELSE Cells(r.cols, LAMBDA c : <<t, o, x, c>>))]
    [] t = "dsrate" -> LET n == StatesOf[groups[o][2]] IN
         [head |-> [i \in 1..n |-> "DS" \o ToString(i)], rows |-> <<[i \in 1..n |-> <<"dsrate", o, ToString(i)>>]>>]
    [] t \in LossTypes -> [head |-> <<XLabel(t)>> \o cs, rows |-> Row(r, LAMBDA x : Cells(cs, LAMBDA c : <<t, o, x, c>>))]
    [] t = "costrate" -> [head |-> <<"t", "Rate">>, rows |-> Row(r, LAMBDA x : << <<"costrate", o, x>> >>)]
    [] t = "totalcost" -> [head |-> <<XLabel(t)>> \o cs, rows |-> Row(r, LAMBDA x : Cells(cs, LAMBDA c : <<"total", o, x, c>>))]
    [] t = "deagg" -> [head |-> <<XLabel(t), "mean_nc", "sd_nc", "mean_c", "sd_c">>,
                       rows |-> Row(r, LAMBDA x : << <<"deagg", o, x, "0", "mean">>, <<"deagg", o, x, "0", "sd">>, <<"deagg", o, x, "1", "mean">>, <<"deagg", o, x, "1", "sd">> >>)]
    [] t = "pdf" -> [head |-> <<XLabel(t), "pdf">>,
                     rows |-> Row(r, LAMBDA x : << IF r.norm THEN <<"npdf", o, x>> \o [i \in 1..Len(r.at) |-> ToString(r.at[i])] ELSE <<"pdf", o, x>> >>)]
    [] t = "structcost.annual" -> [head |-> cs, rows |-> <<Cells(cs, LAMBDA c : <<"annual", o, c>>)>>]
    [] t = "structcost.npv" -> [head |-> <<"Year", "E[ALt]">>, rows |-> Row(r, LAMBDA x : << <<"npv", o, x>> >>)]
    [] t \in ByTypes ->
         [head |-> <<XLabel(t)>> \o Flat([k \in 1..Len(Cats(t)) |-> Cells(cs, LAMBDA c : Cats(t)[k] \o "." \o c)]),
          rows |-> Row(r, LAMBDA x : Flat([k \in 1..Len(Cats(t)) |->
                     Cells(cs, LAMBDA c : IF t = "structcost.by-fate" THEN <<"fate", o, x, c, ToString(k - 1)>> ELSE <<"sum", o, x, c>> \o InCat(t, Cats(t)[k]))]))]

(* --- where it goes ------------------------------------------------------- *)
Bare == {"f1", "f2.txt"}
Placed == {"sub/f3", "./f1"}
Dest == Bare \cup Placed \cup {"-"}
Full(d, f) == IF f \in Bare /\ d # "-" THEN <<d, f>> ELSE <<"-", IF f = "./f1" THEN "f1" ELSE f>>
Paths == {Full(d, f) : d \in {"-", "d1", "d2"}, f \in Bare \cup Placed}
Key(p) == p[1] \o "/" \o p[2]

Init == /\ recs = <<>> /\ groups = [C1 |-> <<"E1", "F1">>, C2 |-> <<"E2", "F2">>, C3 |-> <<"E1", "F2">>, C4 |-> <<"E3", "F1">>]
        /\ mem = <<"C1", "C2", "C3">> /\ dir = "-" /\ files = [p \in Paths |-> <<>>] /\ runs = <<>> /\ hist = <<>>
Blank == [op |-> "", a |-> "", b |-> "", rec |-> <<>>, runs |-> <<>>, files |-> <<>>]
Log(s) == hist' = Append(hist, s)

(* a definition; under a name in use it takes the place of the earlier one *)
Place(n) == IF \E i \in 1..Len(recs) : recs[i].n = n THEN CHOOSE i \in 1..Len(recs) : recs[i].n = n ELSE Len(recs) + 1
Define(r) == LET i == Place(r.n) IN
  /\ recs' = IF i > Len(recs) THEN Append(recs, r) ELSE [recs EXCEPT ![i] = r]
  /\ UNCHANGED <<groups, mem, dir, files, runs>> /\ Log([Blank EXCEPT !.op = "rec", !.rec = <<r>>])
(* without points where there have to be some: refused *)
Refuse(r) == UNCHANGED <<recs, groups, mem, dir, files, runs>> /\ Log([Blank EXCEPT !.op = "norec", !.rec = <<r>>])

RECURSIVE RunAll(_, _, _, _)
RunAll(is, fs, rs, out) ==
  IF is = <<>> THEN <<fs, rs, out>> ELSE
  LET r == recs[is[1]] p == Full(dir, r.file) n == Len(rs) + 1
      rs2 == Append(rs, <<IF r.file = "-" THEN <<"-">> ELSE p, r.app>>)
      out2 == Append(out, [n |-> n, t |-> r.t, form |-> r.form, file |-> IF r.file = "-" THEN "-" ELSE Key(p), table |-> Table(r)])
  IN RunAll(SubSeq(is, 2, Len(is)), IF r.file = "-" THEN fs ELSE [fs EXCEPT ![p] = IF r.app THEN Append(@, n) ELSE <<n>>], rs2, out2)
Run(is, op) == LET w == RunAll(is, files, runs, <<>>) IN
  /\ files' = w[1] /\ runs' = w[2] /\ UNCHANGED <<recs, groups, mem, dir>>
  /\ Log([Blank EXCEPT !.op = op, !.a = IF op = "run" THEN recs[is[1]].n ELSE "", !.runs = w[3],
          !.files = SetToSeq({<<Key(p), w[1][p]>> : p \in {q \in Paths : w[1][q] # <<>>}})])
SetDir(d) == dir' = d /\ UNCHANGED <<recs, groups, mem, files, runs>> /\ Log([Blank EXCEPT !.op = "dir", !.a = d])
(* what the figures depend on changes *)
Change(w) == UNCHANGED <<recs, groups, mem, dir, files, runs>> /\ Log([Blank EXCEPT !.op = "change", !.a = w])
Regroup(c, e) == /\ groups' = [groups EXCEPT ![c][1] = e] /\ UNCHANGED <<recs, mem, dir, files, runs>> /\ Log([Blank EXCEPT !.op = "group", !.a = c, !.b = e])
AddGroup(c) == mem' = Append(mem, c) /\ UNCHANGED <<recs, groups, dir, files, runs>> /\ Log([Blank EXCEPT !.op = "add", !.a = c])
RemoveGroup(c) == /\ mem' = LET i == CHOOSE i \in 1..Len(mem) : mem[i] = c /\ \A j \in 1..(i - 1) : mem[j] # c IN SubSeq(mem, 1, i - 1) \o SubSeq(mem, i + 1, Len(mem))
                  /\ UNCHANGED <<recs, groups, dir, files, runs>> /\ Log([Blank EXCEPT !.op = "rem", !.a = c])

(* --- behaviours ----------------------------------------------------------- *)
Pick(S) == {RandomElement(S)}
Rec(n, t, o, cols, at, form, f, app, norm) ==
  [n |-> n, t |-> t, o |-> o, cols |-> cols, at |-> IF t \in NoPoints THEN <<>> ELSE at, form |-> form, file |-> f, app |-> app, norm |-> norm]
Forms == {"list", "tuple", "array", "iterator", "whole"}
RandomSeq(S, n) == [i \in 1..n |-> RandomElement(S)]
Changes == {"hazard", "demand E1", "demand E2", "fragility F1", "fragility F2", "cost", "delay", "collapse", "demolition", "rebuild"}
DefineRandom(n) ==
  \E t \in Pick(Types) : \E o \in Pick(Targets(t)) : \E len \in Pick({1, 2, 3, 4, 4, 13}) : \E nc \in Pick(0..3) : \E form \in Pick(Forms) : \E f \in Pick(Dest) :
  \E app \in Pick(BOOLEAN) : \E norm \in Pick(BOOLEAN) : \E no \in Pick(1..12) :
  \E at \in {RandomSeq(1..5, len)} : \E cols \in Pick([1..(IF ColumnsOf(t, o) = {} THEN 0 ELSE nc) -> IF ColumnsOf(t, o) = {} THEN {""} ELSE ColumnsOf(t, o)]) :
    LET r == Rec(n, t, o, cols, at, form, f, app, norm) IN
    IF no = 1 /\ t \notin NoPoints THEN Refuse(r) ELSE Define(r)
NextRandom ==
  /\ Len(hist) < Depth
  /\ \E w \in Pick(1..12) : \E n \in Pick({"r1", "r2", "r3", "r4", "r5", "r6"}) :
     CASE w <= 4 -> DefineRandom(n)
       [] w <= 7 /\ recs # <<>> -> \E i \in Pick(1..Len(recs)) : Run(<<i>>, "run")
       [] w = 8 /\ recs # <<>> -> Run([i \in 1..Len(recs) |-> i], "all")
       [] w = 9 -> \E d \in Pick({"d1", "d2"}) : SetDir(d)
       [] w = 10 -> \E k \in Pick({"C3", "C4"}) : \E e \in Pick(Demands) : Regroup(k, e)
       [] w = 11 /\ Len(mem) < 5 -> \E c \in Pick(GroupNames) : AddGroup(c)
       [] w = 11 -> \E c \in Pick({mem[i] : i \in 1..Len(mem)}) : RemoveGroup(c)
       [] OTHER -> \E c \in Pick(Changes) : Change(c)

(* every recorder with no, one or two columns *)
NextEach ==
  \/ /\ Len(hist) = 0
     /\ \E t \in Types : \E o \in Targets(t) : \E norm \in IF t = "pdf" THEN BOOLEAN ELSE {FALSE} :
        \E cols \in {<<>>} \cup {<<c>> : c \in ColumnsOf(t, o)} \cup {<<c, d>> : c, d \in ColumnsOf(t, o)} :
          Define(Rec("r1", t, o, cols, <<2, 1, 4, 2>>, "list", "f1", FALSE, norm))
  \/ Len(hist) = 1 /\ Run(<<1>>, "run")
(* every order of runs of recorders that share files *)
FileRecs == << Rec("r1", "detfn", "D1", <<>>, <<1>>, "list", "f1", FALSE, FALSE), Rec("r2", "detfn", "D2", <<>>, <<2, 3>>, "list", "f1", TRUE, FALSE),
               Rec("r3", "probfn", "Q1", <<>>, <<3, 1>>, "list", "f2.txt", TRUE, FALSE), Rec("r4", "detfn", "D1", <<>>, <<4>>, "list", "-", FALSE, FALSE) >>
NextFiles ==
  \/ Len(hist) < 4 /\ Define(FileRecs[Len(hist) + 1])
  \/ /\ Len(hist) \in 4..(Depth - 1)
     /\ \/ \E i \in 1..4 : Run(<<i>>, "run")
        \/ Run(<<1, 2, 3, 4>>, "all")
        \/ \E d \in {"d1", "d2"} : dir # d /\ SetDir(d)
        \/ Len(hist) = 5 /\ Define([FileRecs[1] EXCEPT !.app = TRUE])
Next == CASE Mode = "random" -> NextRandom [] Mode = "each" -> NextEach [] Mode = "files" -> NextFiles
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = (IF Mode = "each" THEN 2 ELSE Depth) => PrintT("@@" \o ToJson(hist))

(* Said again from the runs: a file holds the runs that went there, from the last one that did not append. *)
To(p) == {n \in 1..Len(runs) : runs[n][1] = p}
FilesHoldRuns == \A p \in Paths :
  LET last == {n \in To(p) : ~ runs[n][2]}
      from == IF last = {} THEN 1 ELSE CHOOSE n \in last : \A k \in last : k <= n
  IN files[p] = SetToSortSeq({n \in To(p) : n >= from}, LAMBDA a, b : a < b)
(* Every line has a cell under every heading. *)
Rectangular == \A i \in 1..Len(recs) : LET t == Table(recs[i]) IN
  \A j \in 1..Len(t.rows) : Len(t.rows[j]) = Len(t.head)
OneLinePerPoint == \A i \in 1..Len(recs) : Len(Table(recs[i]).rows) = IF recs[i].t \in NoPoints THEN 1 ELSE Len(recs[i].at)
=============================================================================
