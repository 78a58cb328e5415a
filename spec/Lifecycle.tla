----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* Starting, running, terminating and joining processes, at the level of   *)
(* the public interface: one program with several threads and any number   *)
(* of child processes.                                                     *)
(*                                                                         *)
(* A child is held before its function starts ("pre"), runs ("run"), was   *)
(* told how to end ("end"), has ended ("dead") and is finally reaped       *)
(* ("reaped").  What its parent can find out is decided by `code` - whether*)
(* it ended successfully - and `res`, whether its result was handed over.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES kids,   \* child -> record, see NewKid
          pend    \* lane -> operation in progress
lvars == <<kids, pend>>

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Range(f) == {f[x] : x \in DOMAIN f}

Ok == [r |-> "ok"]
\* After a join, st tells what has become of the process: 0 - it is reaped.
Err == [r |-> "err", st |-> 0]
Cancelled == [r |-> "cancelled"]
NoRes == [r |-> ""]

\* Results of this kind are the unit value and not handed over at all.
IsUnit(fn) == SubSeq(fn, 3, 3) = "u"
\* More than the socket holds
Huge(len) == len > 100000

NewKid(op) ==
  [st |-> "pre",                    \* see above
   held |-> TRUE,                   \* the parent can still join it
   said |-> FALSE,                  \* its function has started
   killed |-> FALSE,                \* somebody has terminated it
   how |-> [k |-> "", id |-> 0, len |-> 0, code |-> 0, cut |-> FALSE],   \* how it is to end
   code |-> "", res |-> "no",
   fn |-> op.fn, rt |-> op.rt, id |-> op.id, len |-> op.len]

Known == DOMAIN kids
Is(c, s) == c \in Known /\ kids[c].st = s
Alive(c) == c \in Known /\ kids[c].st \in {"pre", "run", "end"}
Set(c, r) == kids' = [kids EXCEPT ![c] = r]

Reaped(k) == [k EXCEPT !.st = "reaped", !.held = FALSE]

LInit == kids = << >> /\ pend = << >>

(* Calls and returns *)
Call(l, op) ==
  /\ l \notin DOMAIN pend
  /\ pend' = With(pend, l, [op |-> op, st |-> "c", res |-> NoRes, canc |-> FALSE])
  /\ UNCHANGED kids
Cancel(l) ==
  /\ pend' = IF l \in DOMAIN pend THEN [pend EXCEPT ![l].canc = TRUE] ELSE pend
  /\ UNCHANGED kids
Ret(l, res) ==
  /\ l \in DOMAIN pend
  /\ pend[l].st = "d"
  /\ pend[l].res = res
  /\ pend' = Without(pend, l)
  /\ UNCHANGED kids

Done(l, res) == pend' = [pend EXCEPT ![l].st = "d", ![l].res = res]

(***************************************************************************)
(* Starting.  `fault` says whether something was arranged to go wrong:     *)
(* "no", "sure" or "maybe".                                                *)
(***************************************************************************)
Start(l) ==
  LET x == pend[l]
      c == x.op.c
  IN /\ x.op.op \in {"spawn", "run"} /\ x.st = "c"
     /\ \/ \* The child exists from now on, but the call may take longer.
           /\ c \notin Known
           /\ kids' = With(kids, c, NewKid(x.op))
           /\ pend' = [pend EXCEPT ![l].st = "s"]
        \/ \* Failure before that
           /\ c \notin Known
           /\ x.op.fault # "no" \/ x.canc
           /\ Done(l, IF x.canc THEN Cancelled ELSE Err)
           /\ UNCHANGED kids
Started(l) ==
  LET x == pend[l]
      c == x.op.c
      gone == kids[c].st \in {"pre", "dead"} /\ ~kids[c].said
  IN /\ x.st = "s"
     /\ \/ /\ x.op.fault # "sure"
           /\ IF x.op.op = "spawn" THEN Done(l, Ok) ELSE pend' = [pend EXCEPT ![l].st = "j"]
           /\ UNCHANGED kids
        \/ \* Failure after the process was created: it is ended and reaped.
           /\ x.op.fault # "no" \/ x.canc \/ Is(c, "dead")
           /\ gone
           /\ Set(c, Reaped(kids[c]))
           /\ Done(l, IF x.canc THEN Cancelled ELSE Err)

\* The function starts, once, with its arguments.
Hello(c, fn, id, len) ==
  /\ Is(c, "pre") /\ ~kids[c].said
  \* If it is not going to be started properly it does not run at all.
  /\ \A l \in DOMAIN pend : pend[l].st = "s" /\ pend[l].op.c = c => pend[l].op.fault # "sure"
  /\ fn = kids[c].fn /\ id = kids[c].id /\ len = kids[c].len
  /\ Set(c, [kids[c] EXCEPT !.st = "run", !.said = TRUE])
  /\ UNCHANGED pend

(* The child is told how to end. *)
End(c, how) ==
  /\ IF Is(c, "run") THEN Set(c, [kids[c] EXCEPT !.st = "end", !.how = how]) ELSE UNCHANGED kids
  /\ UNCHANGED pend
\* A signal from somewhere
Die(c) ==
  /\ IF Alive(c) THEN Set(c, [kids[c] EXCEPT !.killed = TRUE]) ELSE UNCHANGED kids
  /\ UNCHANGED pend
\* It exits before the library is reached.
PreExit(c, code) ==
  /\ IF Is(c, "pre")
     THEN Set(c, [kids[c] EXCEPT !.how = [k |-> "exit", id |-> 0, len |-> 0, code |-> code, cut |-> FALSE, at |-> ""],
                                 !.st = "end"])
     ELSE UNCHANGED kids
  /\ UNCHANGED pend

\* Handing over the result takes a receiver if the socket cannot hold it.
Joining(c) == \E l \in DOMAIN pend : pend[l].op.op \in {"join", "run"} /\ pend[l].op.c = c
Hand(c) ==
  LET k == kids[c]
  IN /\ k.st = "end" /\ k.how.k = "return" /\ k.res = "no" /\ ~IsUnit(k.fn)
     /\ k.held
     /\ Huge(k.how.len) => Joining(c)
     /\ Set(c, [k EXCEPT !.res = "yes"])
     /\ UNCHANGED pend
\* The end of the process
Perish(c) ==
  LET k == kids[c]
  IN /\ Alive(c)
     /\ UNCHANGED pend
     /\ \/ /\ k.killed \/ (k.st = "end" /\ k.how.cut)
           /\ Set(c, [k EXCEPT !.st = "dead", !.code = "bad"])
        \/ /\ k.st = "end" /\ k.how.k = "return"
           /\ k.res = "yes" \/ IsUnit(k.fn)
           /\ Set(c, [k EXCEPT !.st = "dead", !.code = IF k.how.code = 0 THEN "ok" ELSE "bad"])
        \/ \* Nobody is there to take the result.
           /\ k.st = "end" /\ k.how.k = "return" /\ ~k.held
           /\ Set(c, [k EXCEPT !.st = "dead", !.code = "bad"])
        \/ /\ k.st = "end" /\ k.how.k = "exit"
           /\ Set(c, [k EXCEPT !.st = "dead", !.code = IF k.how.code = 0 THEN "ok" ELSE "bad"])
        \/ /\ k.st = "end" /\ k.how.k \in {"panic", "signal"}
           /\ Set(c, [k EXCEPT !.st = "dead", !.code = "bad"])

(* Joining *)
Outcome(k) ==
  IF k.code # "ok" THEN Err
  ELSE IF IsUnit(k.fn) THEN [r |-> "val", id |-> 0, len |-> 0, st |-> 0]
  ELSE IF k.res = "yes" THEN [r |-> "val", id |-> k.how.id, len |-> k.how.len, st |-> 0]
  ELSE Err
Join(l) ==
  LET x == pend[l]
      c == x.op.c
  IN /\ \/ x.op.op = "join" /\ x.st = "c"
        \/ x.op.op = "run" /\ x.st = "j"
     /\ \/ /\ Is(c, "dead")
           /\ Set(c, Reaped(kids[c]))
           /\ Done(l, Outcome(kids[c]))
        \/ /\ x.canc
           /\ Set(c, [kids[c] EXCEPT !.held = FALSE])
           /\ Done(l, Cancelled)
Forget(l) ==
  /\ pend[l].op.op = "forget"
  /\ Set(pend[l].op.c, [kids[pend[l].op.c] EXCEPT !.held = FALSE])
  /\ Done(l, Ok)

(* Terminating *)
KillStep(l) ==
  LET x == pend[l]
      c == x.op.c
  IN /\ x.op.op = "kill" /\ x.st = "c"
     /\ \/ /\ ~Is(c, "reaped")
           /\ Done(l, Ok)
           /\ Set(c, [kids[c] EXCEPT !.killed = @ \/ Alive(c)])
        \/ \* It has ended, or is about to and a join knows.
           /\ Is(c, "reaped") \/ (Joining(c) /\ (kids[c].st \in {"end", "dead"} \/ kids[c].killed))
           /\ Done(l, Err)
           /\ UNCHANGED kids
\* The system call it makes; `state` is 0 if there is no such child any more.
KillSys(c, state) ==
  /\ ~Is(c, "reaped") /\ c \in Known
  /\ state # 0
  /\ \/ \E l \in DOMAIN pend : pend[l].op.op = "kill" /\ pend[l].op.c = c
     \* A process that could not be started properly
     \/ \E l \in DOMAIN pend : pend[l].op.op \in {"spawn", "run"} /\ pend[l].op.c = c
  /\ UNCHANGED lvars

(* Looking around, while nothing else goes on *)
Children(l) ==
  /\ pend[l].op.op = "children"
  /\ DOMAIN pend = {l}
  /\ Done(l, [r |-> "set", cs |-> {c \in Known : kids[c].st # "reaped"}])
  /\ UNCHANGED kids
Fds(l) ==
  /\ pend[l].op.op = "fds"
  /\ DOMAIN pend = {l}
  /\ Done(l, [r |-> "fds", cc |-> Cardinality({c \in Known : kids[c].held}), extra |-> 0])
  /\ UNCHANGED kids

Step(l) ==
  /\ pend[l].st # "d"
  /\ Start(l) \/ Started(l) \/ Join(l) \/ Forget(l) \/ KillStep(l) \/ Children(l) \/ Fds(l)
Internal == \/ \E l \in DOMAIN pend : Step(l)
            \/ \E c \in Known : Hand(c) \/ Perish(c)

Dead(c) == c \in Known /\ kids[c].st \in {"dead", "reaped"} /\ UNCHANGED lvars

(***************************************************************************)
(* What may be seen when everything is quiet.                              *)
(***************************************************************************)
\* A child that is still there
Lingers(c) ==
  LET k == kids[c]
  IN ~k.killed /\
     \/ k.st = "run"
     \/ k.st = "pre"
     \/ k.st = "end" /\ k.how.k = "return" /\ k.held /\ ~IsUnit(k.fn) /\ Huge(k.how.len) /\ ~Joining(c)
Waiting(l) ==
  LET x == pend[l]
  IN \/ x.op.op \in {"join", "run"} /\ x.op.c \in Known /\ Lingers(x.op.c)
     \/ x.op.op = "spawn" /\ x.st = "s" /\ Huge(x.op.len) /\ Is(x.op.c, "pre") /\ ~kids[x.op.c].killed
=============================================================================
