------------------------------ MODULE WorldMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of World within small bounds: a root and a       *)
(* child joined by a duplex, with a second channel whose ends can be sent  *)
(* over the first.  Every operation may be given up or die half-way.  What *)
(* was sent, received and reported is logged and checked.                  *)
(*                                                                         *)
(* The Bad* operators replace those of World in configurations that must   *)
(* fail: the invariants notice if a protection is missing.                 *)
(***************************************************************************)
EXTENDS World

CONSTANTS Budget,      \* number of calls
          Ops,         \* subset of {"send", "recv", "drop", "request", "cancel", "kill"}
          Big,         \* ids of the values that take several packets
          Carry        \* ids of the values that carry an end of the second channel

VARIABLES log, n
mvars == <<wvars, log, n>>

Lane == "main"
EndsOf(p) == {x \in own : x.p = p}
Op(o, h) == [op |-> o, h |-> h, keep |-> FALSE, canc |-> "no", mortal |-> FALSE, store |-> "r" \o ToString(n)]
Hs(p, h, id) == IF id \in Carry /\ \E x \in EndsOf(p) : x.o.n = "e" /\ x.h # h
                THEN <<(CHOOSE x \in EndsOf(p) : x.o.n = "e" /\ x.h # h).h>> ELSE << >>
M(p, h, id) == LET hs == Hs(p, h, id)
               IN [id |-> id, len |-> IF id \in Big THEN 40000 ELSE 10, sh |-> "", hs |-> hs, own |-> hs]

Init ==
  /\ up = ("root" :> "up" @@ "x" :> "up")
  /\ own = {[p |-> "root", h |-> "a", o |-> End("c", 0), k |-> "TD"],
            [p |-> "x", h |-> "b", o |-> End("c", 1), k |-> "TD"]}
           \cup (IF Carry = {} THEN {} ELSE
           {[p |-> "root", h |-> "ea", o |-> End("e", 0), k |-> "TD"],
            [p |-> "root", h |-> "eb", o |-> End("e", 1), k |-> "TD"]})
  /\ q = [d \in {"c", "e"} \X {0, 1} |-> << >>]
  /\ shut = {} /\ off = << >> /\ ust = << >> /\ pend = << >>
  /\ out = ("x" :> [par |-> "root", held |-> TRUE, st |-> "run", m |-> NoValue, args |-> Torn])
  /\ lim = ("root" :> -1 @@ "x" :> -1)
  /\ junk = {}
  /\ log = << >> /\ n = 1

Give ==
  /\ "cancel" \in Ops
  /\ \E p \in {"root", "x"} : ~Idle(p, Lane) /\ P(p, Lane).st \in {"c", "s"} /\ ~P(p, Lane).canc
                              /\ P(p, Lane).op.op # "drop" /\ Cancel(p, Lane)
  /\ UNCHANGED <<log, n>>
Murder == "kill" \in Ops /\ up["x"] = "up" /\ Kill("x") /\ UNCHANGED <<log, n>>
\* The log is written when an operation returns.
Returned ==
  /\ UNCHANGED n
  /\ \E p \in {"root", "x"} :
       /\ ~Idle(p, Lane) /\ P(p, Lane).st = "d"
       /\ Ret(p, Lane, P(p, Lane).res)
       /\ LET x == P(p, Lane)
          IN log' = IF x.op.op = "drop" THEN log
                    ELSE Append(log, [op |-> x.op.op, p |-> p, o |-> x.o, id |-> IF Carries(x.op) THEN x.m.id ELSE 0, res |-> x.res])
\* `o` is looked up when the call is made: the end may be gone by the time it returns.
Calls == /\ n <= Budget /\ n' = n + 1 /\ UNCHANGED log
          /\ \E p \in {"root", "x"}, o \in Ops \cap {"send", "request", "recv", "drop"} : \E x \in EndsOf(p) :
               /\ up[p] = "up" /\ Idle(p, Lane)
               /\ LET op == IF o \in {"send", "request"} THEN Op(o, x.h) @@ [m |-> M(p, x.h, n)] ELSE Op(o, x.h)
                  IN /\ pend' = With(pend, <<p, Lane>>,
                          [op |-> op, st |-> "c", res |-> None, lost |-> FALSE, hl |-> FALSE, canc |-> FALSE, o |-> x.o,
                           m |-> IF Carries(op) THEN Value(p, op.m) ELSE Torn,
                           drop |-> IF Carries(op) THEN Range(op.m.own) ELSE {}])
                     /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk>>
MCNext == Calls \/ Give \/ Murder \/ (Internal /\ UNCHANGED <<log, n>>) \/ Returned
Spec == Init /\ [][MCNext]_mvars
Fair == Spec /\ WF_mvars(Internal /\ UNCHANGED <<log, n>>) /\ WF_mvars(Returned)

Idx == 1..Len(log)
GotIn(d) == {i \in Idx : log[i].res.r = "val" /\ RecvDir(log[i].o) = d}
NoneIn(d) == {i \in Idx : log[i].res.r = "none" /\ RecvDir(log[i].o) = d}
SentIn(d) == {i \in Idx : log[i].op = "send" /\ log[i].res.r = "ok" /\ SendDir(log[i].o) = d}
TriedIn(d) == {log[i].id : i \in {j \in Idx : log[j].op \in {"send", "request"} /\ SendDir(log[j].o) = d}}
              \cup {pend[x].m.id : x \in {y \in DOMAIN pend : pend[y].op.op \in {"send", "request"} /\ SendDir(pend[y].o) = d}}
Dirs == DOMAIN q

\* Values are received at most once, in the order of the sends, whole, and only if they were sent.
Delivery == \A d \in Dirs :
  /\ \A i \in GotIn(d), j \in GotIn(d) : i < j => log[i].res.id < log[j].res.id
  /\ up["x"] = "up" /\ up["root"] = "up" => \A i \in GotIn(d) : log[i].res.id \in TriedIn(d)
  /\ \A i \in GotIn(d) : (log[i].res.len = 40000) <=> (log[i].res.id \in Big)
\* End of stream is final, and all that was sent before has been received, unless a transfer in
\* this direction was interrupted.
EndOfStream == \A d \in Dirs : \A i \in NoneIn(d) :
  /\ \A j \in GotIn(d) : j < i
  /\ (d \notin shut /\ "kill" \notin Ops) =>
        \A j \in SentIn(d) : \E k \in GotIn(d) : log[k].res.id = log[j].id
\* An object exists in one place: handles are moved, never duplicated, by these operations.
Unique == \A x \in own, y \in own : x.o = y.o /\ x.o.t = "e" => x = y \/ \E z \in DOMAIN pend : pend[z].drop # {}
                                                                \/ pend[z].st = "f"
Types == TypeOK
\* Everything comes to an end or has to wait.
Progress == \A p \in {"root", "x"} :
  (~Idle(p, Lane) /\ P(p, Lane).st \in {"c", "s"} /\ ~ENABLED Internal) => Waiting(p, Lane)

(* Missing protections *)
EarlyEnd(o) == TRUE              \* end of stream although somebody may still send
NeverEnd(o) == FALSE             \* the end of the peer goes unnoticed
NeverBad(o) == FALSE             \* sends to nobody wait for ever
AnyHead(s) == s[Len(s)]          \* the newest value first
=============================================================================
