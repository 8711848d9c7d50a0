------------------------------- MODULE Paths -------------------------------
(* How file names are resolved.  A bare name stands for a file in the       *)
(* configured directory (input and output each have their own; by default   *)
(* the current one), a name with a directory part for the file it names;    *)
(* either gets ".csv" when it has no extension.  Files are written by       *)
(* recorders and read by the import functions.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Places,      \* directories: relative ones, and "/" for the absolute one
          Bases,       \* bare names: "x" without an extension, "y.txt" with one, ...
          Cwds, Depth, Exhaustive
VARIABLES cwd, ind, outd, lines, read, hist
vars == <<cwd, ind, outd, lines, read, hist>>
None == "-"
HasExt(b) == b \in {"y.txt", "z.csv", "a.b.c", "w.", ".h.d"}
File(b) == IF HasExt(b) THEN b ELSE b \o ".csv"
(* the place that stands for directory d seen from directory c *)
From(c, d) == IF d = "/" THEN "/" ELSE IF d = None THEN c ELSE IF c = "" THEN d ELSE c \o "/" \o d
Where(conf, n) == IF n.dir # None THEN From(cwd, n.dir) ELSE From(cwd, conf)
Resolved(conf, n) == <<Where(conf, n), File(n.base)>>
NameSet == [dir : Places \cup {None}, base : Bases]
Init == /\ cwd = "" /\ ind = None /\ outd = None /\ lines = {} /\ read = <<>> /\ hist = <<>>
(* lines: how often each file was written since it was last replaced *)
Count(p) == IF \E l \in lines : l[1] = p THEN (CHOOSE l \in lines : l[1] = p)[2] ELSE 0
Record(op, d, n, ans) == hist' = Append(hist, [op |-> op, d |-> d, n |-> n, ans |-> ans, lines |-> lines'])
NoName == [dir |-> None, base |-> "-"]
SetIn(d) == ind' = d /\ UNCHANGED <<cwd, outd, lines, read>> /\ Record("setin", d, NoName, <<"-", "-">>)
(* is created when it is missing *)
SetOut(d) == outd' = d /\ UNCHANGED <<cwd, ind, lines, read>> /\ Record("setout", d, NoName, <<From(cwd, d), "-">>)
Chdir(c) == cwd' = c /\ UNCHANGED <<ind, outd, lines, read>> /\ Record("cd", c, NoName, <<"-", "-">>)
Ask(which, n) == UNCHANGED <<cwd, ind, outd, lines, read>> /\ Record(which, "-", n, Resolved(IF which = "askin" THEN ind ELSE outd, n))
Read(what, n) == UNCHANGED <<cwd, ind, outd, lines, read>> /\ Record(what, "-", n, Resolved(ind, n))
Write(how, n) ==
  LET p == Resolved(outd, n)
      k == IF how = "append" THEN Count(p) + 1 ELSE 1
  IN /\ lines' = {l \in lines : l[1] # p} \cup {<<p, k>>}
     /\ UNCHANGED <<cwd, ind, outd, read>> /\ Record(how, "-", n, p)
Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
Next == /\ Len(hist) < Depth
        /\ \E w \in Pick({"setin", "setout", "cd", "askin", "askout", "probfn", "imfn", "new", "append"}) :
           CASE w = "setin" -> \E d \in Pick(Places) : SetIn(d)
             [] w = "setout" -> \E d \in Pick(Places) : SetOut(d)
             [] w = "cd" -> \E c \in Pick(Cwds) : Chdir(c)
             [] OTHER -> \E n \in Pick(NameSet) : \E b \in Pick(BOOLEAN) :
                  LET m == IF b /\ ~Exhaustive THEN [n EXCEPT !.dir = None] ELSE n
                  IN IF w \in {"askin", "askout"} THEN Ask(w, m) ELSE IF w \in {"probfn", "imfn"} THEN Read(w, m) ELSE Write(w, m)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))

(* Setting one directory never moves what the other kind of name stands     *)
(* for, and names with a directory part are moved by neither.               *)
Untouched ==
  [][\A n \in NameSet :
       /\ (ind' # ind => Resolved(outd, n)' = Resolved(outd, n))
       /\ (outd' # outd => Resolved(ind, n)' = Resolved(ind, n))
       /\ (n.dir # None /\ cwd' = cwd => Resolved(ind, n)' = Resolved(ind, n) /\ Resolved(outd, n)' = Resolved(outd, n))
       /\ (n.dir = "/" => Resolved(ind, n)' = Resolved(ind, n))]_vars
OneCount == \A a, b \in lines : a[1] = b[1] => a = b
=============================================================================
