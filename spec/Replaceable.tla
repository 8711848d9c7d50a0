---------------------------- MODULE Replaceable ----------------------------
(* Objects that clients refer to, that tell their clients when they change *)
(* and that can hand their clients over to a replacement (replaceable.h).  *)
(* A token is one registration of one client.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Subjects, Tokens, Depth, Exhaustive
VARIABLES cb,       \* the tokens registered with each subject
          where,    \* the subject each client refers to ("-": none, it was never registered)
          next,     \* tokens used so far
          notified, \* the tokens told of a change by the last operation
          hist
vars == <<cb, where, next, notified, hist>>
Tok(n) == "t" \o ToString(n)
Toks == {Tok(n) : n \in 1..Tokens}

Init == /\ cb = [r \in Subjects |-> {}] /\ where = [t \in Toks |-> "-"]
        /\ next = 1 /\ notified = {} /\ hist = <<>>

Log(op) == hist' = Append(hist, [op EXCEPT !.where = where', !.notified = notified'])
Op(o, x, y) == [op |-> o, x |-> x, y |-> y, where |-> where, notified |-> {}]

Attach(r) == /\ next <= Tokens
             /\ cb' = [cb EXCEPT ![r] = @ \cup {Tok(next)}]
             /\ where' = [where EXCEPT ![Tok(next)] = r]
             /\ next' = next + 1 /\ notified' = {}
             /\ Log(Op("attach", r, Tok(next)))
(* Registrations end at the subject the client refers to; ending one twice *)
(* or at another subject has no effect on anyone.                          *)
Detach(r, t) == /\ where[t] # "-"
                /\ cb' = [cb EXCEPT ![r] = @ \ {t}]
                /\ notified' = {} /\ UNCHANGED <<where, next>>
                /\ Log(Op("detach", r, t))
Notify(r) == /\ notified' = cb[r] /\ UNCHANGED <<cb, where, next>>
             /\ Log(Op("notify", r, "-"))
Replace(a, b) ==
  /\ IF a = b THEN UNCHANGED <<cb, where>>
     ELSE /\ cb' = [cb EXCEPT ![b] = @ \cup cb[a], ![a] = {}]
          /\ where' = [t \in Toks |-> IF t \in cb[a] THEN b ELSE where[t]]
  /\ notified' = {} /\ UNCHANGED next
  /\ Log(Op("replace", a, b))

Next == \/ \E r \in Subjects : Attach(r) \/ Notify(r)
        \/ \E r \in Subjects, t \in Toks : Detach(r, t)
        \/ \E a, b \in Subjects : Replace(a, b)
Spec == Init /\ [][Next]_vars

(* A registered client refers to the subject it is registered with, and    *)
(* is registered with no other: nobody else's changes reach it, and its    *)
(* subject's changes do.                                                   *)
RegisteredWhereReferred == \A r \in Subjects : \A t \in cb[r] : where[t] = r
NeverTwice == \A a, b \in Subjects : a # b => cb[a] \cap cb[b] = {}

NextD == Len(hist) < Depth /\ Next
SpecD == Init /\ [][NextD]_vars
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
(* Without the history the state space is finite. *)
NextF == Next /\ TRUE
View == <<cb, where, next, notified>>
=============================================================================
