------------------------------ MODULE Logging ------------------------------
(* Where log messages go: to standard error while that is enabled (which it *)
(* is at the start), and to the log file last named, if one was.  Naming a  *)
(* file starts it afresh, at the latest with the first message to it.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Files, Depth, Exhaustive
VARIABLES err, file, fresh,   \* standard error enabled; the file in use; named, but nothing written since
          onerr, infile,      \* what has appeared where: numbers of messages
          sent, hist
vars == <<err, file, fresh, onerr, infile, sent, hist>>
None == "-"
Init == /\ err = TRUE /\ file = None /\ fresh = FALSE
        /\ onerr = <<>> /\ infile = [f \in Files |-> <<>>] /\ sent = 0 /\ hist = <<>>
Record(op, x) == hist' = Append(hist, [op |-> op, x |-> x])
StdErr(b) == /\ err' = b /\ UNCHANGED <<file, fresh, onerr, infile, sent>> /\ Record("stderr", IF b THEN "True" ELSE "False")
Name(f) == /\ file' = f /\ fresh' = TRUE /\ UNCHANGED <<err, onerr, infile, sent>> /\ Record("file", f)
Message ==
  /\ sent' = sent + 1
  /\ onerr' = IF err THEN Append(onerr, sent') ELSE onerr
  /\ infile' = IF file = None THEN infile
               ELSE [infile EXCEPT ![file] = IF fresh THEN <<sent'>> ELSE Append(@, sent')]
  /\ fresh' = FALSE
  /\ UNCHANGED <<err, file>> /\ Record("message", ToString(sent'))
Pick(S) == IF Exhaustive THEN S ELSE {RandomElement(S)}
Next == /\ Len(hist) < Depth
        /\ \E w \in Pick({"stderr", "name", "message", "message2"}) :
             CASE w = "stderr" -> \E b \in Pick(BOOLEAN) : StdErr(b)
               [] w = "name" -> \E f \in Pick(Files) : Name(f)
               [] w = "message" -> Message
               [] OTHER -> ~Exhaustive /\ Message
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> hist, onerr |-> onerr, infile |-> infile, last |-> IF fresh THEN file ELSE None]))

(* Said again from the history: message n is on standard error exactly once *)
(* if that was enabled when it was sent, and else not at all.               *)
At(n) == CHOOSE i \in 1..Len(hist) : hist[i].op = "message" /\ hist[i].x = ToString(n)
ErrAt(i) == LET s == {j \in 1..i : hist[j].op = "stderr"} IN IF s = {} THEN TRUE ELSE hist[CHOOSE j \in s : \A k \in s : k <= j].x = "True"
FileAt(i) == LET s == {j \in 1..i : hist[j].op = "file"} IN IF s = {} THEN None ELSE hist[CHOOSE j \in s : \A k \in s : k <= j].x
Count(s, n) == Cardinality({i \in 1..Len(s) : s[i] = n})
Delivered == \A n \in 1..sent :
  /\ Count(onerr, n) = IF ErrAt(At(n)) THEN 1 ELSE 0
  /\ \A f \in Files : Count(infile[f], n) <= IF FileAt(At(n)) = f THEN 1 ELSE 0
  /\ file # None /\ ~fresh /\ FileAt(At(n)) = file /\ (\A j \in At(n)..Len(hist) : hist[j].op # "file") => Count(infile[file], n) = 1
=============================================================================
