--------------------------- MODULE LifecycleTrace ---------------------------
(* Validation of recorded executions against Lifecycle. *)
EXTENDS Lifecycle, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Verbose == "VERBOSE" \in DOMAIN IOEnv
VARIABLES tix, i
vars == <<lvars, tix, i>>
Norm(res) == IF res.r = "set" THEN [res EXCEPT !.cs = Range(@)] ELSE res
Event(e) ==
  CASE e.ev = "call" -> Call(e.l, e.op)
    [] e.ev = "ret" -> Ret(e.l, Norm(e.res))
    [] e.ev = "cancel" -> Cancel(e.l)
    [] e.ev = "hello" -> Hello(e.c, e.fn, e.id, e.len)
    [] e.ev = "end" -> End(e.c, e.how)
    [] e.ev = "die" -> Die(e.c)
    [] e.ev = "preexit" -> PreExit(e.c, e.code)
    [] e.ev = "dead" -> Dead(e.c)
    [] e.ev = "killsys" -> KillSys(e.c, e.state)
    [] e.ev = "alive" -> Is(e.c, "reaped") = FALSE /\ e.c \in Known /\ Lingers(e.c) /\ UNCHANGED lvars
    [] e.ev = "stuck" -> Waiting(e.l) /\ UNCHANGED lvars
    [] OTHER -> FALSE
More == i <= Len(Traces[tix])
E == Traces[tix][i]
Consume ==
  /\ More
  /\ Event(E)
  /\ i' = i + 1
  /\ UNCHANGED tix
  /\ (Verbose => PrintT(<<"AT", tix, i>>))
  /\ (i = Len(Traces[tix]) => PrintT(<<"ACCEPT", tix>>))
Init == LInit /\ tix \in 1..Len(Traces) /\ i = 1
(***************************************************************************)
(* Internal steps are taken as late as possible: right before an event     *)
(* that may depend on them.  This accepts the same traces.                 *)
(***************************************************************************)
RetOf(c) == E.ev = "ret" /\ "c" \in DOMAIN pend[E.l].op /\ pend[E.l].op.c = c
About(c) == "c" \in DOMAIN E /\ E.c = c
Now(l) == \/ E.ev = "ret" /\ E.l = l
          \/ pend[l].op.op = "kill" /\ (RetOf(pend[l].op.c) \/ (E.ev \in {"dead", "alive"} /\ About(pend[l].op.c)))
          \/ pend[l].op.op \in {"spawn", "run"} /\ pend[l].st = "c" /\ (About(pend[l].op.c) \/ E.ev = "stuck")
          \/ pend[l].op.op = "run" /\ pend[l].st = "s" /\ E.ev = "stuck"
Next ==
  /\ More
  /\ \/ Consume
     \/ \E l \in DOMAIN pend : Now(l) /\ Step(l) /\ UNCHANGED <<tix, i>>
     \/ \E c \in Known :
          /\ RetOf(c) \/ (E.ev = "dead" /\ About(c))
          /\ (Hand(c) \/ Perish(c))
          /\ UNCHANGED <<tix, i>>
Spec == Init /\ [][Next]_vars
=============================================================================
