----------------------------- MODULE WorldTrace -----------------------------
(***************************************************************************)
(* Validation of recorded executions: every event of a trace must be a     *)
(* step of World, with any number of internal steps in between.            *)
(*                                                                         *)
(* Internal steps that commute with everything until their operation       *)
(* returns are taken at one fixed point only, which leaves far fewer       *)
(* interleavings to look at and accepts the same traces:                   *)
(*  - eager steps are taken as soon as possible and before anything else;  *)
(*  - lazy steps are taken right before their operation returns.           *)
(***************************************************************************)
EXTENDS World, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES tix, i
vars == <<wvars, tix, i>>

Norm(res) == IF res.r = "fds" THEN [res EXCEPT !.fds = Range(@)] ELSE res

Event(e) ==
  CASE e.ev = "call" -> Call(e.p, e.l, e.op)
    [] e.ev = "ret" -> Ret(e.p, e.l, Norm(e.res))
    [] e.ev = "hello" -> Hello(e.p, e.res)
    [] e.ev = "cancel" -> Cancel(e.p, e.l)
    [] e.ev = "die" -> Kill(e.p)
    [] e.ev = "dead" -> Dead(e.p)
    [] e.ev = "stuck" -> Waiting(e.p, e.l) /\ UNCHANGED wvars
    [] OTHER -> FALSE

More == i <= Len(Traces[tix])
E == Traces[tix][i]

\* Steps nobody but the process itself can notice
Local(x) ==
  LET op == pend[x].op
  IN \/ op.op \in {"channel", "duplex", "mkfile", "mkunix", "convert", "fds", "execls", "rlimit_free", "rlimit_reset", "spawn"}
     \/ op.op \in {"desc", "drop"} /\ ((ObjOf(x[1], op.h).t = "f") <=> (op.op = "drop"))
     \/ op.op = "join" /\ Leaves(out[op.child].m) = {}
Lazy(x) == pend[x].st = "c" /\ Local(x)
\* The operation cannot be overtaken by the end of its process.
Undisturbed(p) == \A j \in 1..Len(Traces[tix]) : Traces[tix][j].ev = "die" => Traces[tix][j].p # p
EagerStep(x) ==
  \/ pend[x].st = "f" /\ \A y \in Lost(x[1], pend[x].drop) : y.o.t = "f"
  \/ pend[x].op.op \in {"return", "exit"} /\ Undisturbed(x[1])
EagerAbort(x) == up[x[1]] = "dying" /\ Lazy(x) /\ pend[x].op.op # "spawn"
                 /\ \A j \in i..Len(Traces[tix]) : Traces[tix][j].ev \in {"ret", "hello"} => Traces[tix][j].p # x[1]
EagerDie(p) == /\ up[p] = "dying"
               /\ \A x \in DOMAIN pend : x[1] # p
               /\ \A x \in own : x.p = p => x.o.t = "f"
               /\ \A c \in DOMAIN out : ~(out[c].par = p /\ out[c].held)
EagerSteps == {x \in DOMAIN pend : Live(x[1]) /\ EagerStep(x)}
EagerAborts == {x \in DOMAIN pend : EagerAbort(x)}
EagerDies == {p \in DOMAIN up : EagerDie(p)}

Consume ==
  /\ More
  /\ Event(E)
  /\ i' = i + 1
  /\ UNCHANGED tix
  /\ (Verbose => PrintT(<<"AT", tix, i>>))
  /\ (i = Len(Traces[tix]) => PrintT(<<"ACCEPT", tix>>))

Now(x) == \/ ~Lazy(x)
          \/ E.ev = "ret" /\ <<E.p, E.l>> = x
          \/ pend[x].op.op = "spawn" /\ E.ev = "hello" /\ E.p = pend[x].op.child

Init == WInit /\ tix \in 1..Len(Traces) /\ i = 1

Next ==
  /\ More
  /\ IF EagerSteps # {} THEN LET x == CHOOSE y \in EagerSteps : TRUE
                             IN Step(x[1], x[2]) /\ UNCHANGED <<tix, i>>
     ELSE IF EagerAborts # {} THEN LET x == CHOOSE y \in EagerAborts : TRUE
                                   IN pend' = Without(pend, x) /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk, tix, i>>
     ELSE IF EagerDies # {} THEN LET p == CHOOSE z \in EagerDies : TRUE
                                 IN Die(p) /\ UNCHANGED <<tix, i>>
     ELSE \/ Consume
          \/ \E x \in DOMAIN pend : Now(x) /\ Step(x[1], x[2]) /\ UNCHANGED <<tix, i>>
          \/ \E x \in DOMAIN pend : Abort(x[1], x[2]) /\ UNCHANGED <<tix, i>>
          \/ \E p \in DOMAIN up : Die(p) /\ UNCHANGED <<tix, i>>

Spec == Init /\ [][Next]_vars
Inv == \A d \in shut : d \in DOMAIN q
=============================================================================
