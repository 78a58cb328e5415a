---------------------------- MODULE LifecycleGen ----------------------------
(***************************************************************************)
(* Generation of scenarios: random behaviours of Lifecycle with several    *)
(* threads, together with the points at which operations are held up.      *)
(***************************************************************************)
EXTENDS Lifecycle, Json, IOUtils

Profile == ndJsonDeserialize(IOEnv.PROFILE)[1]
Wt(a) == IF a \in DOMAIN Profile.w THEN Profile.w[a] ELSE 0
On(a) == Wt(a) > 0
Lanes == Range(Profile.lanes)

VARIABLES hist, n, phase, points, seen, hot
gvars == <<lvars, hist, n, phase, points, seen, hot>>
\* points: lane -> number of points at which its operation is still to be released
\* hot: new children stop before they reach the library

Init == LInit /\ hist = << >> /\ n = 1 /\ phase = "run" /\ points = << >> /\ seen = {} /\ hot = FALSE

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
\* Some things are only done while nothing else goes on.
Exclusive == \E l \in DOMAIN pend : pend[l].op.op \in {"children", "fds"} \/ ("bad" \in DOMAIN pend[l].op /\ pend[l].op.bad = "limit")
Free == IF Exclusive THEN {} ELSE {l \in Lanes : l \notin DOMAIN pend}
AllIdle == DOMAIN pend = {}
Fresh == "k" \o ToString(n)
Log(e) == hist' = Append(hist, e)

GCall(l, op, hold) ==
  /\ Call(l, op)
  /\ Log([ev |-> "call", l |-> l, op |-> op])
  /\ points' = With(points, l, hold)
  /\ n' = n + 1
  /\ UNCHANGED <<phase, seen, hot>>

\* The result of the function is described by its kind.
ResLen(fn, len) ==
  LET t == SubSeq(fn, 3, 3)
  IN CASE t = "u" -> 0 [] t = "w" -> 8 [] t = "z" -> 0 [] t = "g" -> 40000 [] t = "r" -> 20000 [] OTHER -> len
ResId(fn, id) == IF SubSeq(fn, 3, 3) \in {"u", "z"} THEN 0 ELSE id

Spawning == {l \in DOMAIN pend : pend[l].op.op \in {"spawn", "run"}}
GSpawn(faulty, run) ==
  /\ Cardinality(Known) < Profile.kids
  \* While children are held before the library they are started one at a time.
  /\ hot => Spawning = {} /\ \A c \in Known : kids[c].st # "pre"
  /\ \E l \in Pick(Free), f \in Pick({"b", "t", "s"}), t \in Pick(Range(Profile.types)),
        rt \in Pick({"b", "t", "s"}), len \in Pick(Range(Profile.arglens)),
        op \in {IF run THEN "run" ELSE "spawn"} :
     \E bad \in Pick(IF faulty THEN {"clone", "socketpair", "execv", "send", "cut", "limit"} ELSE {"no"}) :
     \E at \in Pick(IF On("hold") /\ Spawning = {} /\ bad = "no" /\ ~hot
                   THEN {"", "execv", "clone", "clone_after", "send"} ELSE {""}) :
       /\ bad = "cut" => rt # "b"
       /\ bad = "limit" => AllIdle
       /\ bad = "send" \/ bad = "cut" => ~hot
       /\ GCall(l, [op |-> op, c |-> Fresh, fn |-> f \o "_" \o t, rt |-> rt, id |-> n, len |-> len, bad |-> bad,
                    fault |-> IF bad \in {"clone", "socketpair", "execv", "limit"} \/ (bad = "send") THEN "sure"
                              ELSE IF bad = "cut" THEN "maybe" ELSE "no",
                    nth |-> IF bad \in {"send", "cut"} THEN RandomElement(1..(1 + len \div 16383)) ELSE 1,
                    canc |-> bad = "cut",
                    at |-> at],
                   IF at = "" THEN 0 ELSE 1)
Joinable == {c \in Known : kids[c].held /\ kids[c].st # "pre"
               /\ \A l \in DOMAIN pend : "c" \in DOMAIN pend[l].op => pend[l].op.c # c \/ pend[l].op.op = "kill"}
GJoin == \E l \in Pick(Free) : \E c \in Pick(Joinable) :
         \E hold \in Pick(IF On("hold") THEN SUBSET {"recv", "wait", "waited"} ELSE {{}}) :
         \E canc \in Pick(IF On("canceljoin") /\ hold = {} /\ kids[c].rt # "b" THEN {FALSE, FALSE, FALSE, TRUE} ELSE {FALSE}) :
           GCall(l, [op |-> "join", c |-> c, hold |-> hold, canc |-> canc], Cardinality(hold))
\* Prefer joining what has ended.
GJoinEnded == \E l \in Pick(Free) : \E c \in Pick({d \in Joinable : kids[d].st # "run"}) :
         \E hold \in Pick(IF On("hold") THEN SUBSET {"recv", "wait", "waited"} ELSE {{}}) :
           GCall(l, [op |-> "join", c |-> c, hold |-> hold, canc |-> FALSE], Cardinality(hold))
GKill == \E l \in Pick(Free) : \E c \in Pick({d \in Known : \A x \in Spawning : pend[x].op.c # d}) :
         \E hold \in Pick(IF On("hold") THEN SUBSET {"kill", "killed"} ELSE {{}}) :
           /\ \A x \in DOMAIN pend : ~(pend[x].op.op = "kill" /\ pend[x].op.c = c /\ pend[x].op.h = l)
           /\ \E o \in {hist[j].op : j \in {k \in 1..Len(hist) : hist[k].ev = "call"}} : o.op = "spawn" /\ o.c = c
           /\ GCall(l, [op |-> "kill", c |-> c, h |-> l, hold |-> hold], Cardinality(hold))
GForget == \E l \in Pick(Free) : \E c \in Pick(Joinable) : GCall(l, [op |-> "forget", c |-> c], 0)
GLook == AllIdle /\ \E l \in Pick(Free), op \in {"children", "fds"} : GCall(l, [op |-> op], 0)
GRelease == \E l \in Pick({x \in DOMAIN points : points[x] > 0}) :
  /\ Log([ev |-> "release", l |-> l])
  /\ points' = [points EXCEPT ![l] = @ - 1]
  /\ UNCHANGED <<lvars, n, phase, seen, hot>>
\* Spawning children that stop before the library is reached
GHot == /\ AllIdle /\ \A c \in Known : kids[c].st # "pre"
        /\ hot' = ~hot
        /\ Log([ev |-> "hot", on |-> ~hot])
        /\ UNCHANGED <<lvars, n, phase, points, seen>>

GCancel == \E l \in Pick({x \in DOMAIN pend : "canc" \in DOMAIN pend[x].op /\ pend[x].op.canc /\ ~pend[x].canc}) :
        /\ Cancel(l)
        /\ Log([ev |-> "cancel", l |-> l])
        /\ UNCHANGED <<n, phase, points, seen, hot>>

GEnd == \E c \in Pick({d \in Known : kids[d].st = "run"}) :
        \E kk \in Pick(1..8), len \in Pick(Range(Profile.lens)), code \in Pick({0, 7}),
           aa \in Pick(1..7), cut \in Pick(1..6), sig \in Pick({6, 9, 11, 15, 1}), nth \in Pick(1..4) :
        LET at == IF aa = 1 THEN "linger" ELSE IF aa = 2 THEN "exit3" ELSE ""
            k == IF kk <= 5 THEN "return" ELSE IF kk = 6 THEN "panic" ELSE IF kk = 7 THEN "exit" ELSE "signal"
            how == [k |-> k, id |-> ResId(kids[c].fn, n), len |-> ResLen(kids[c].fn, len), raw |-> n,
                    code |-> IF k = "exit" THEN code ELSE IF k = "return" /\ at = "exit3" THEN 3 ELSE 0,
                    at |-> IF k = "return" THEN at ELSE "", sig |-> sig, nth |-> nth,
                    cut |-> k = "return" /\ cut = 1 /\ ~IsUnit(kids[c].fn)]
        IN /\ End(c, how)
           /\ Log([ev |-> "end", c |-> c, how |-> how])
           /\ n' = n + 1
           /\ UNCHANGED <<phase, points, seen, hot>>
GDie == \E c \in Pick({d \in Known : ~kids[d].killed /\ (kids[d].st = "run" \/ (kids[d].st = "end" /\ (kids[d].how.at = "linger" \/ Huge(kids[d].how.len))))}) :
        /\ Die(c) /\ Log([ev |-> "die", c |-> c]) /\ UNCHANGED <<n, phase, points, seen, hot>>
GPre == /\ hot
        /\ \E c \in Pick({d \in Known : kids[d].st = "pre"}), ww \in Pick(1..5), code \in Pick({0, 5}) :
           LET what == IF ww = 1 THEN "exit" ELSE IF ww = 2 THEN "die" ELSE "go" IN
           /\ CASE what = "go" -> UNCHANGED lvars
                [] what = "exit" -> PreExit(c, code)
                [] what = "die" -> Die(c)
           /\ c \notin seen
           /\ Log([ev |-> "pre", c |-> c, what |-> what, code |-> code])
           /\ seen' = seen \cup {c}
           /\ UNCHANGED <<n, phase, points, hot>>
GHello == \E c \in Known :
        /\ hot => c \in seen
        /\ Hello(c, kids[c].fn, kids[c].id, kids[c].len)
        /\ Log([ev |-> "hello", c |-> c])
        /\ UNCHANGED <<n, phase, points, seen, hot>>
GRet == \E l \in DOMAIN pend :
        /\ l \in DOMAIN points => points[l] = 0
        /\ Ret(l, pend[l].res)
        /\ Log([ev |-> "ret", l |-> l])
        /\ UNCHANGED <<n, phase, points, seen, hot>>
GInternal == /\ \/ \E l \in DOMAIN pend : Step(l) /\ (l \in DOMAIN points => points[l] = 0 \/ pend[l].op.op = "kill")
                \/ \E c \in Known : Hand(c) \/ Perish(c)
             /\ UNCHANGED <<hist, n, phase, points, seen, hot>>
GWatch == \E c \in Known : /\ kids[c].st \in {"dead", "reaped"} /\ ("dead " \o c) \notin seen
        /\ Log([ev |-> "dead", c |-> c])
        /\ seen' = seen \cup {"dead " \o c}
        /\ UNCHANGED <<lvars, n, phase, points, hot>>

GCalls == phase = "run" /\ Len(hist) < Profile.steps
GDrain == /\ phase = "run" /\ Len(hist) >= Profile.steps
          /\ phase' = "drain"
          /\ UNCHANGED <<lvars, hist, n, points, seen, hot>>
GFinish == /\ phase = "drain"
           /\ \A l \in DOMAIN pend : Waiting(l)
           /\ \A l \in DOMAIN points : points[l] = 0
           /\ \A c \in Known : kids[c].st = "pre" => hot /\ c \notin seen
           /\ \A c \in Known : Alive(c) => Lingers(c)
           /\ PrintT("SCENARIO " \o ToJson(hist))
           /\ phase' = "end"
           /\ UNCHANGED <<lvars, hist, n, points, seen, hot>>
Next ==
  \/ \E w \in 1..Wt("spawn") : GCalls /\ GSpawn(FALSE, FALSE)
  \/ \E w \in 1..Wt("run") : GCalls /\ GSpawn(FALSE, TRUE)
  \/ \E w \in 1..Wt("fault") : GCalls /\ GSpawn(TRUE, FALSE)
  \/ GCalls /\ On("fault") /\ On("run") /\ GSpawn(TRUE, TRUE)
  \/ \E w \in 1..Wt("join") : GCalls /\ GJoin
  \/ \E w \in 1..Wt("join") : GCalls /\ GJoinEnded
  \/ \E w \in 1..Wt("kill") : GCalls /\ GKill
  \/ \E w \in 1..Wt("forget") : GCalls /\ GForget
  \/ \E w \in 1..Wt("look") : GCalls /\ GLook
  \/ \E w \in 1..Wt("hot") : GCalls /\ GHot
  \/ \E w \in 1..Wt("end") : GCalls /\ GEnd
  \/ \E w \in 1..Wt("die") : GCalls /\ GDie
  \/ phase \in {"run", "drain"} /\ GCancel
  \/ phase \in {"run", "drain"} /\ GRelease
  \/ \E w \in 1..Profile.pace : phase \in {"run", "drain"} /\ GPre
  \/ \E w \in 1..Profile.pace : phase \in {"run", "drain"} /\ GHello
  \/ \E w \in 1..Profile.pace : phase \in {"run", "drain"} /\ GRet
  \/ \E w \in 1..Profile.pace : phase \in {"run", "drain"} /\ GInternal
  \/ \E w \in 1..Profile.pace : phase \in {"run", "drain"} /\ GWatch
  \/ GDrain
  \/ GFinish
Spec == Init /\ [][Next]_gvars
=============================================================================
