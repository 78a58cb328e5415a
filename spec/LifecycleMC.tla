---------------------------- MODULE LifecycleMC ----------------------------
(* Exhaustive exploration of Lifecycle within small bounds, with what users *)
(* rely on as invariants over a history of results.                         *)
EXTENDS Lifecycle
CONSTANTS Budget,   \* number of calls
          Fns,      \* functions
          Ends,     \* ways to end, by name
          Faults    \* kinds of faulty starts
VARIABLES n, log, oks
mvars == <<lvars, n, log, oks>>
Lanes == {"l1", "l2"}
\* oks: children for which a kill handle reported success while they were not reaped
How(e) ==
  CASE e = "return" -> [k |-> "return", id |-> 7, len |-> 5, code |-> 0, cut |-> FALSE, at |-> ""]
    [] e = "huge" -> [k |-> "return", id |-> 7, len |-> 300000, code |-> 0, cut |-> FALSE, at |-> ""]
    [] e = "atexit" -> [k |-> "return", id |-> 7, len |-> 5, code |-> 3, cut |-> FALSE, at |-> ""]
    [] e = "cut" -> [k |-> "return", id |-> 7, len |-> 5, code |-> 0, cut |-> TRUE, at |-> ""]
    [] e = "exit0" -> [k |-> "exit", id |-> 0, len |-> 0, code |-> 0, cut |-> FALSE, at |-> ""]
    [] e = "exit7" -> [k |-> "exit", id |-> 0, len |-> 0, code |-> 7, cut |-> FALSE, at |-> ""]
    [] e = "panic" -> [k |-> "panic", id |-> 0, len |-> 0, code |-> 0, cut |-> FALSE, at |-> ""]
Name == "k" \o ToString(n)
StartOp(o, f, x) == [op |-> o, c |-> Name, fn |-> f, rt |-> "t", id |-> n, len |-> 0, bad |-> x,
                     fault |-> IF x = "no" THEN "no" ELSE IF x = "cut" THEN "maybe" ELSE "sure"]
Busy(c) == \E l \in DOMAIN pend : "c" \in DOMAIN pend[l].op /\ pend[l].op.c = c /\ pend[l].op.op # "kill"
Ops == {StartOp(o, f, x) : o \in {"spawn", "run"}, f \in Fns, x \in {"no"} \cup Faults}
       \cup {[op |-> "join", c |-> c] : c \in {d \in Known : kids[d].held /\ ~Busy(d)}}
       \cup {[op |-> "forget", c |-> c] : c \in {d \in Known : kids[d].held /\ ~Busy(d)}}
       \cup {[op |-> "kill", c |-> c] : c \in {d \in Known : ~\E l \in DOMAIN pend : pend[l].st = "s" /\ pend[l].op.c = d}}
Init == LInit /\ n = 1 /\ log = << >> /\ oks = {}
Do == /\ n <= Budget
      /\ \E l \in Lanes, op \in Ops : Call(l, op)
      /\ n' = n + 1 /\ UNCHANGED <<log, oks>>
Rets == \E l \in DOMAIN pend :
      /\ Ret(l, pend[l].res)
      /\ LET x == pend[l] IN
         /\ log' = IF x.op.op \in {"join", "run", "spawn"} THEN With(log, x.op.c, [op |-> x.op.op, res |-> x.res]) ELSE log
         /\ oks' = IF x.op.op = "kill" /\ x.res = Ok THEN oks \cup {x.op.c} ELSE oks
      /\ UNCHANGED n
Cancels == \E l \in DOMAIN pend : pend[l].op.op \in {"join", "run"} /\ ~pend[l].canc /\ Cancel(l) /\ UNCHANGED <<n, log, oks>>
Ending == \E c \in Known, e \in Ends : kids[c].st = "run" /\ End(c, How(e)) /\ UNCHANGED <<n, log, oks>>
Dying == \E c \in Known : Alive(c) /\ ~kids[c].killed /\ Die(c) /\ UNCHANGED <<n, log, oks>>
Hellos == \E c \in Known : Hello(c, kids[c].fn, kids[c].id, kids[c].len) /\ UNCHANGED <<n, log, oks>>
Inner == Internal /\ UNCHANGED <<n, log, oks>>
Next == Do \/ Rets \/ Cancels \/ Ending \/ Dying \/ Hellos \/ Inner
Spec == Init /\ [][Next]_mvars
Fair == Spec /\ WF_mvars(Inner) /\ WF_mvars(Rets) /\ WF_mvars(Hellos)

Finished(c) == c \in DOMAIN log /\ log[c].op \in {"join", "run"}
\* A value is only reported if the function returned it and the process ended successfully.
Reported == \A c \in DOMAIN log : Finished(c) /\ log[c].res.r = "val" =>
  /\ kids[c].code = "ok" /\ ~(kids[c].killed /\ kids[c].code = "bad")
  /\ IsUnit(kids[c].fn) \/ (kids[c].how.k = "return" /\ log[c].res.id = kids[c].how.id /\ log[c].res.len = kids[c].how.len)
  /\ kids[c].said \/ IsUnit(kids[c].fn)
\* Whoever has been told an outcome has no zombie to take care of.
AllReaped == \A c \in DOMAIN log : (Finished(c) /\ log[c].res.r # "cancelled") \/ log[c].res.r = "err" =>
  c \notin Known \/ kids[c].st = "reaped"
\* A process that could not be started has not run its function.
Unstarted == \A c \in DOMAIN log : log[c].op = "spawn" /\ log[c].res.r = "err" => c \notin Known \/ ~kids[c].said
\* A successful kill is not without consequence.
Killed == \A c \in oks : kids[c].killed \/ kids[c].st \in {"dead", "reaped"}
\* What is quiet may be quiet.
Quiet == (~ENABLED Inner /\ ~ENABLED Rets /\ ~ENABLED Hellos) =>
  /\ \A l \in DOMAIN pend : Waiting(l)
  /\ \A c \in Known : Alive(c) => Lingers(c)
Inv == Reported /\ AllReaped /\ Unstarted /\ Killed /\ Quiet
\* A call that waits for a process that ends returns.
Answered == \A l \in Lanes : (l \in DOMAIN pend /\ pend[l].op.op = "join" /\ kids[pend[l].op.c].killed) ~> (l \notin DOMAIN pend)

(* Broken variants, which the invariants have to notice *)
\* believes the result whatever the process does afterwards
Trusting(k) == IF k.res = "yes" THEN [r |-> "val", id |-> k.how.id, len |-> k.how.len, st |-> 0] ELSE Err
\* believes the exit code alone
Hopeful(k) == IF k.code = "ok" THEN [r |-> "val", id |-> k.how.id, len |-> k.how.len, st |-> 0] ELSE Err
Unreaped(k) == [k EXCEPT !.held = FALSE]
=============================================================================
