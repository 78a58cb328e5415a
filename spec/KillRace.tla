------------------------------ MODULE KillRace ------------------------------
(***************************************************************************)
(* Termination against reaping, step by step: what the kill handles and    *)
(* the join of one child do to the mutex, the mark "may be killed" it      *)
(* protects, and the process id, which the system gives to somebody else   *)
(* as soon as it is free.                                                  *)
(*                                                                         *)
(* The replays of Lifecycle hold the real code at the system calls of this *)
(* model (before and after waiting, before and after signalling) in all    *)
(* combinations the generator comes up with.                               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Killers,
          Locked,    \* kill holds the mutex from looking at the mark until after the signal
          Mark,      \* when join clears the mark: "before" or "after" waiting, or "never"
          Guarded    \* join holds the mutex while it clears the mark
VARIABLES lock, may, owner, state, join, killer, saw, victim, res
vars == <<lock, may, owner, state, join, killer, saw, victim, res>>
\* owner: who has the process id: "child", "nobody", "other"
Init ==
  /\ lock = "free" /\ may = TRUE /\ owner = "child" /\ state = "run" /\ join = "recv"
  /\ killer = [k \in Killers |-> "idle"] /\ saw = [k \in Killers |-> FALSE]
  /\ victim = FALSE /\ res = [k \in Killers |-> ""]

End == state = "run" /\ state' = "zombie" /\ UNCHANGED <<lock, may, owner, join, killer, saw, victim, res>>
Reuse == owner = "nobody" /\ owner' = "other" /\ UNCHANGED <<lock, may, state, join, killer, saw, victim, res>>

Acquire(who) == IF Guarded THEN lock = "free" /\ lock' = who ELSE UNCHANGED lock
JStep(from, to) == join = from /\ join' = to
\* The result arrives before the end of the process or the stream ends with it.
JRecv == JStep("recv", "lock") /\ UNCHANGED <<lock, may, owner, state, killer, saw, victim, res>>
JLock == JStep("lock", "mark") /\ Acquire("join") /\ UNCHANGED <<may, owner, state, killer, saw, victim, res>>
JMark == /\ JStep("mark", "wait")
         /\ may' = IF Mark = "before" THEN FALSE ELSE may
         /\ UNCHANGED <<lock, owner, state, killer, saw, victim, res>>
JWait == /\ JStep("wait", "after") /\ state = "zombie"
         /\ state' = "gone" /\ owner' = "nobody"
         \* Without a mark that is cleared first, nothing is held meanwhile either.
         /\ UNCHANGED <<lock, may, killer, saw, victim, res>>
JAfter == /\ JStep("after", "done")
          /\ may' = IF Mark = "after" THEN FALSE ELSE may
          /\ lock' = IF lock = "join" THEN "free" ELSE lock
          /\ UNCHANGED <<owner, state, killer, saw, victim, res>>

KStep(k, from, to) == killer[k] = from /\ killer' = [killer EXCEPT ![k] = to]
KStart(k) == KStep(k, "idle", "lock") /\ UNCHANGED <<lock, may, owner, state, join, saw, victim, res>>
KLock(k) == /\ KStep(k, "lock", "look")
            /\ IF Locked THEN lock = "free" /\ lock' = k ELSE UNCHANGED lock
            /\ UNCHANGED <<may, owner, state, join, saw, victim, res>>
KLook(k) == /\ KStep(k, "look", "signal")
            /\ saw' = [saw EXCEPT ![k] = may]
            /\ UNCHANGED <<lock, may, owner, state, join, victim, res>>
KSignal(k) == /\ KStep(k, "signal", "unlock")
              /\ IF saw[k]
                 THEN /\ victim' = (victim \/ owner = "other")
                      /\ state' = IF owner = "child" /\ state = "run" THEN "zombie" ELSE state
                      /\ res' = [res EXCEPT ![k] = IF owner = "nobody" THEN "err" ELSE "ok"]
                 ELSE /\ res' = [res EXCEPT ![k] = "err"]
                      /\ UNCHANGED <<victim, state>>
              /\ UNCHANGED <<lock, may, owner, join, saw>>
KUnlock(k) == /\ KStep(k, "unlock", "done")
              /\ lock' = IF lock = k THEN "free" ELSE lock
              /\ UNCHANGED <<may, owner, state, join, saw, victim, res>>
K(k) == KStart(k) \/ KLock(k) \/ KLook(k) \/ KSignal(k) \/ KUnlock(k)
J == JRecv \/ JLock \/ JMark \/ JWait \/ JAfter
Next == End \/ Reuse \/ J \/ \E k \in Killers : K(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(End) /\ SF_vars(J) /\ \A k \in Killers : SF_vars(K(k))

\* No signal reaches a process that happens to have the same id.
Innocent == ~victim
\* No signal is sent to an id nobody has.
Aimed == \A k \in Killers : killer[k] = "signal" /\ saw[k] => owner = "child"
\* A failure is only reported once the child has ended or is being waited for.
Honest == \A k \in Killers : res[k] = "err" => join \notin {"recv", "lock"}
\* Nobody is stuck for ever.
Ends == <>(join = "done" /\ \A k \in Killers : killer[k] = "done")
=============================================================================
