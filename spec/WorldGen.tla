------------------------------ MODULE WorldGen ------------------------------
(***************************************************************************)
(* Generation of scenarios: random behaviours of World, printed as the     *)
(* sequence of their visible events.  Some choices are narrowed so that    *)
(* the outcome does not depend on the size of kernel buffers, and so that  *)
(* an end is used by one process at a time.                                *)
(***************************************************************************)
EXTENDS World, Json, IOUtils

\* What to generate: weights of the actions, sizes and so on
Profile == ndJsonDeserialize(IOEnv.PROFILE)[1]
Wt(a) == IF a \in DOMAIN Profile.w THEN Profile.w[a] ELSE 0
On(a) == Wt(a) > 0
Lens == Range(Profile.lens)        \* lengths of values
Els == Range(Profile.els)          \* element types of channels
MaxProcs == Profile.procs
MaxChans == Profile.chans
MaxItems == Profile.items
Rts == Range(Profile.rts)          \* runtimes
Lanes == Range(Profile.lanes)
Crowds == Range(Profile.crowds)    \* numbers of handles
Steps == Profile.steps
\* Profile.pace: how soon calls proceed and return

VARIABLES hist, n, phase, els
gvars == <<wvars, hist, n, phase, els>>

Init == WInit /\ hist = << >> /\ n = 1 /\ phase = "run" /\ els = << >>

\* Element types that are sent around themselves
Mobile(o) == o.t # "e" \/ els[o.n] \in {"M", "P", "W"}
ElLen(el) ==
  CASE el = "W" -> 8 [] el = "U" -> 0 [] el = "R" -> 20000
    [] el = "P" -> 16384 [] el = "B0" -> 0 [] el = "B1" -> 1
    [] el = "B16375" -> 16375 [] el = "B16382" -> 16382 [] el = "B16383" -> 16383
    [] el = "B16385" -> 16385 [] el = "B32766" -> 32766 [] el = "B32767" -> 32767
    [] el = "B32768" -> 32768 [] el = "B40000" -> 40000 [] el = "B49149" -> 49149
    [] el = "B49150" -> 49150
ElId(el) == CASE el \in {"U", "B0"} -> 0 [] el = "B1" -> n % 256 [] OTHER -> n

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
PickOr(S) == IF S = {} THEN {[h |-> "", k |-> ""]} ELSE {RandomElement(S)}
Fresh(pre) == pre \o ToString(n)

\* What pending operations of p use
Busy(p) == UNION {LET x == pend[y] IN
    (IF Carries(x.op) THEN Range(x.op.m.own) ELSE {}) \cup {x.op.h} : y \in {z \in DOMAIN pend : z[1] = p}}
Avail(p) == {x \in own : x.p = p /\ x.h \notin Busy(p) /\ SubSeq(x.h, 1, 1) # "~"}

Started(p) == p = "root" \/ out[p].args.t # "m"
Fn(p) == IF p = "root" THEN "b" ELSE SubSeq(p, 1, 1)
\* A process whose function runs inside tokio is driven by one lane only.
LanesOf(p) == IF Fn(p) = "t" /\ Profile.tasks = "" THEN {"main"} ELSE Lanes
Ready == {<<p, l>> \in {<<a, b>> : a \in {x \in DOMAIN up : up[x] = "up" /\ Started(x)}, b \in Lanes} :
             /\ l \in LanesOf(p) /\ Idle(p, l)
             /\ \A y \in DOMAIN pend : y[1] = p => pend[y].op.op \notin {"fds", "execls", "exit", "return"}}
NoSpawn(p) == \A z \in DOMAIN pend : z[1] = p => pend[z].op.op # "spawn"
ReadyFree == {x \in Ready : lim[x[1]] < 0}
AllIdle(p) == \A x \in DOMAIN pend : x[1] # p

Base == [op |-> "", h |-> "", keep |-> FALSE, canc |-> "no", mortal |-> FALSE, store |-> ""]
GCall(p, l, op) ==
  /\ Call(p, l, op)
  /\ hist' = Append(hist, [ev |-> "call", p |-> p, l |-> l, op |-> op])
  /\ n' = n + 1
  /\ els' = IF op.op \in {"channel", "duplex"} THEN With(els, op.c, op.el) ELSE els
  /\ UNCHANGED phase

(* Values: a sequence of wrapped handles. *)
Wraps == {"plain", "plain", "opt", "share", "many", "later", "pad", "none", "two"}
ShapeOf(w) ==
  CASE w = "plain" -> "*" [] w = "opt" -> "opt(*)" [] w = "share" -> "share(*)"
    [] w = "many" -> "many(*)" [] w = "later" -> "later(*)" [] w = "pad" -> "pad" [] w = "none" -> "none"
    [] w = "two" -> "two(**)" [] w = "crowd" -> "crowd"
RECURSIVE Concat(_), ShapeStr(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
ShapeStr(its) == IF its = << >> THEN "" ELSE ShapeOf(Head(its).w) \o ShapeStr(Tail(its))
HandlesOf(it) == IF it.w \in {"pad", "none"} THEN << >>
                 ELSE IF it.w = "two" THEN <<it.h, it.h>>
                 ELSE IF it.w = "crowd" THEN [i \in 1..it.n |-> it.of[((i - 1) % Len(it.of)) + 1]]
                 ELSE <<it.h>>
OwnOf(it) == IF it.w \in {"pad", "none"} THEN << >> ELSE IF it.w = "crowd" THEN it.of ELSE <<it.h>>
Msg(its, len) == [id |-> n, len |-> len, sh |-> ShapeStr(its),
                  hs |-> Concat([i \in 1..Len(its) |-> HandlesOf(its[i])]),
                  own |-> Concat([i \in 1..Len(its) |-> OwnOf(its[i])]), items |-> its]
\* Random values with handles from S; every random choice is bound by a quantifier so that it is
\* made once.
WrapFor(h, keep) ==
  Wraps \ ((IF keep THEN {"later", "pad", "none"} ELSE {}) \cup (IF h.k = "file" THEN {} ELSE {"two"}))
ItemOf(h, w) == [w |-> w, h |-> h.h]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Msgs(S0, keep) == LET S == {x \in S0 : Mobile(x.o)} IN
  IF On("crowd") /\ RandomElement(1..4) = 1 /\ \E x \in S : x.k = "file"
  THEN {Msg(<<[w |-> "crowd", h |-> "", n |-> c,
               of |-> SubSeq(SetToSeq({x.h : x \in {y \in S : y.k = "file"}}), 1,
                             Min(c, Cardinality({y \in S : y.k = "file"})))]>>, len)
          : c \in Pick(Crowds), len \in Pick(Lens)}
  ELSE UNION {UNION {UNION {UNION {
    LET I1 == {ItemOf(h1, w) : w \in Pick(WrapFor(h1, keep))}
        I2 == {ItemOf(h2, w) : w \in Pick(WrapFor(h2, keep))}
        I3 == {ItemOf(h3, w) : w \in Pick(WrapFor(h3, keep))}
        T == IF k = 0 \/ h1.h = "" THEN {<< >>}
             ELSE IF k = 1 \/ h2.h = "" THEN {<<a>> : a \in I1}
             ELSE IF k = 2 \/ h3.h = "" THEN {<<a, b>> : a \in I1, b \in I2}
             ELSE {<<a, b, c>> : a \in I1, b \in I2, c \in I3}
    IN {Msg(its, len) : its \in T, len \in Pick(Lens)}
    : h3 \in PickOr(S \ {h1, h2})} : h2 \in PickOr(S \ {h1})} : h1 \in PickOr(S)} : k \in Pick(0..MaxItems)}

\* Nobody else is using this direction of the end at the moment.
FreeSend(o) == \A y \in DOMAIN pend : pend[y].op.op \in {"send", "request"} => ObjOf(y[1], pend[y].op.h) # o
FreeRecv(o) == \A y \in DOMAIN pend : pend[y].op.op \in {"recv", "request"} => ObjOf(y[1], pend[y].op.h) # o
Sole(o) == Cardinality({x \in own : x.o = o}) = 1
           /\ \A d \in DOMAIN q : o \notin InQueue(d)
           /\ \A c \in DOMAIN out : out[c].st = "ret" => \A y \in Range(out[c].m.lv) : y.o # o

\* Values for the channel of e
ElMsgs(p, e, keep) ==
  LET el == els[e.o.n]
  IN IF el = "M"
     \* An end that could only be received through itself would be lost for good.
     THEN Msgs({y \in Avail(p) \ {e} : y.o.n # e.o.n}, keep)
     ELSE {[id |-> ElId(el), len |-> IF el = "S" THEN len ELSE ElLen(el), sh |-> "", hs |-> << >>, own |-> << >>, items |-> << >>]
             : len \in Pick(Lens)}

GChannel == /\ On("channel") /\ Cardinality(DOMAIN q) < 2 * MaxChans
  /\ \E x \in Pick(ReadyFree), rt \in Pick(Rts), kind \in Pick({"channel", "duplex"}), el \in Pick(Els) :
       GCall(x[1], x[2], [Base EXCEPT !.op = kind] @@
          [rt |-> rt, el |-> el, c |-> Fresh("c"), a |-> Fresh("a"), b |-> Fresh("b")])

Sendable(p) == {x \in Avail(p) : IsSend(x.k) /\ FreeSend(x.o)}
Recvable(p) == {x \in Avail(p) : IsRecv(x.k) /\ FreeRecv(x.o)}
GSend == /\ On("send")
  /\ \E x \in Pick({y \in ReadyFree : Sendable(y[1]) # {}}) : \E e \in Pick(Sendable(x[1])) :
     \E keep \in Pick(IF On("keep") THEN BOOLEAN ELSE {FALSE}) :
     \E m \in ElMsgs(x[1], e, keep) :
     \E canc \in Pick(IF IsAsync(e.k) /\ On("cancel") THEN {"no", "tok", "cut"} ELSE {"no"}) :
     \E mortal \in Pick(IF On("killin") /\ x[1] # "root" /\ Multi(Value(x[1], m)) /\ NoSpawn(x[1])
                               THEN BOOLEAN ELSE {FALSE}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "send", !.h = e.h, !.keep = keep, !.canc = canc, !.mortal = mortal]
                         @@ [m |-> m, cut |-> RandomElement(1..4)])
GRecv == /\ On("recv")
  /\ \E x \in Pick({y \in Ready : Recvable(y[1]) # {}}) :
     \* Not everyone is to wait.
     \E e \in Pick({d \in Recvable(x[1]) : q[RecvDir(d.o)] # << >> \/ Cardinality(Ready) > 1}) :
     \E canc \in Pick(IF IsAsync(e.k) /\ On("cancel") THEN {"no", "tok", "cut"} ELSE {"no"}) :
     \E store \in Pick({"", Fresh("r"), Fresh("R")}) :
     \E mortal \in Pick(IF On("killin") /\ x[1] # "root" /\ q[RecvDir(e.o)] # << >> /\ NoSpawn(x[1]) THEN BOOLEAN ELSE {FALSE}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "recv", !.h = e.h, !.canc = canc, !.store = store, !.mortal = mortal]
                         @@ [cut |-> RandomElement(1..4)])
\* Prefer receiving something that is there
GRecvSome == /\ On("recv")
  /\ \E x \in Pick({y \in Ready : \E e \in Recvable(y[1]) : q[RecvDir(e.o)] # << >>}) :
     \E e \in Pick({y \in Recvable(x[1]) : q[RecvDir(y.o)] # << >>}) :
     \E store \in Pick({"", Fresh("r"), Fresh("R")}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "recv", !.h = e.h, !.store = store] @@ [cut |-> 1])
GRequest == /\ On("request")
  /\ \E x \in Pick({y \in ReadyFree : Sendable(y[1]) \cap Recvable(y[1]) # {} /\ Cardinality(Ready) > 1}) :
     \E e \in Pick(Sendable(x[1]) \cap Recvable(x[1])) :
     \E m \in ElMsgs(x[1], e, FALSE) :
     \E store \in Pick({"", Fresh("r"), Fresh("R")}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "request", !.h = e.h, !.store = store] @@ [m |-> m, cut |-> 1])
GCancel == /\ On("cancel")
  /\ \E y \in Pick({z \in DOMAIN pend : pend[z].op.canc = "tok" /\ ~pend[z].canc}) :
       /\ Cancel(y[1], y[2])
       /\ hist' = Append(hist, [ev |-> "cancel", p |-> y[1], l |-> y[2]])
       /\ UNCHANGED <<n, phase, els>>
GDrop == /\ On("drop")
  /\ \E x \in Pick({y \in ReadyFree : Avail(y[1]) # {}}) : \E e \in Pick(Avail(x[1])) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "drop", !.h = e.h])
GConvert == /\ On("convert")
  /\ \E x \in Pick(ReadyFree) : \E e \in Pick({y \in Avail(x[1]) : y.k \in DOMAIN Convert}) :
     \E to \in Pick(DOMAIN Convert[e.k] \ (IF Sole(e.o) THEN {} ELSE {"t", "s"})) :
       /\ FreeSend(e.o) /\ FreeRecv(e.o)
       /\ GCall(x[1], x[2], [Base EXCEPT !.op = "convert", !.h = e.h] @@ [to |-> to])
GFile == /\ On("file") /\ Cardinality(DOMAIN off) < Profile.files
  /\ \E x \in Pick(ReadyFree), k \in Pick({"file", "owned", "tfile", "sfile"}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "mkfile", !.h = Fresh("f")] @@
             [f |-> IF n % 3 = 0 THEN Fresh("F") ELSE Fresh("G"), k |-> k, off |-> RandomElement({0, 5, 100})])
GUnix == /\ On("unix") /\ Cardinality(DOMAIN ust) < 2 * Profile.unixes
  /\ \E x \in Pick(ReadyFree), k \in Pick({"unix", "owned", "tunix", "sunix"}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "mkunix"] @@
             [u |-> Fresh("u"), k |-> k, a |-> Fresh("x"), b |-> Fresh("y")])
GSeek == /\ On("seek")
  /\ \E x \in Pick(ReadyFree) : \E e \in Pick({y \in Avail(x[1]) : y.o.t = "f"}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "seek", !.h = e.h] @@ [off |-> RandomElement(0..1000)])
GDesc == /\ On("desc")
  /\ \E x \in Pick(ReadyFree) : \E e \in Pick(Avail(x[1])) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "desc", !.h = e.h])
GUse == /\ On("use")
  /\ \E x \in Pick(ReadyFree) :
     \E e \in Pick({y \in Avail(x[1]) : y.k # "sfile" /\ y.o.t \in {"f", "u"} }) :
     \E write \in Pick(IF e.o.t = "u" /\ ust[<<e.o.n, 1 - e.o.s>>] = << >> THEN {TRUE} ELSE BOOLEAN) :
       \* Two descriptors of one socket pair side may not both be blocking and not
       /\ \A y \in DOMAIN pend : pend[y].op.op = "use" => ObjOf(y[1], pend[y].op.h) # e.o
       /\ GCall(x[1], x[2], [Base EXCEPT !.op = "use", !.h = e.h] @@
             [write |-> write, data |-> SubSeq("0000" \o ToString(n), Len(ToString(n)) + 1, Len(ToString(n)) + 4)])
OnlyHeld(p) == \A y \in DOMAIN pend : y[1] = p => pend[y].op.canc = "pause"
GFds == /\ On("fds")
  /\ \E x \in Pick({y \in ReadyFree : OnlyHeld(y[1])}) :
     \E op \in Pick(IF AllIdle(x[1]) THEN {"fds", "execls"} ELSE {"execls"}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = op])
Crowded(p) == \E e \in Recvable(p) : q[RecvDir(e.o)] # << >> /\ Head(q[RecvDir(e.o)]).t = "m"
                                      /\ Len(Head(q[RecvDir(e.o)]).lv) > 0
GLimit == /\ On("limit")
  /\ \E x \in Pick({y \in Ready : AllIdle(y[1]) /\ (lim[y[1]] >= 0 \/ Crowded(y[1]))}) :
     IF lim[x[1]] >= 0
     THEN GCall(x[1], x[2], [Base EXCEPT !.op = "rlimit_reset"])
     ELSE GCall(x[1], "main", [Base EXCEPT !.op = "rlimit_free"] @@ [free |-> RandomElement({0, 1, 2, 3} \cup (IF On("crowd") THEN {100, 250, 253, 300} ELSE {}))])

Argable(p, f) == {x \in Avail(p) : f = "t" \/ ~(x.k \in {"TS", "TR", "TD", "tfile", "tunix"})}
\* A spawn may be held up right before or after the new process is created, while others go on.
Held(p) == {y \in DOMAIN pend : y[1] = p /\ pend[y].op.canc = "pause"}
GSpawn == /\ On("spawn") /\ Cardinality(DOMAIN up) < MaxProcs
  /\ \E x \in Pick(ReadyFree), rt \in Pick(Rts), f \in Pick(Range(Profile.fns)) :
     \E m \in Msgs(Argable(x[1], f), FALSE) :
     \E canc \in Pick(IF On("pause") /\ Fn(x[1]) # "t" /\ Held(x[1]) = {} THEN {"no", "pause"} ELSE {"no"}) :
     \E at \in Pick({"execv", "clone"}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "spawn", !.canc = canc]
                         @@ [m |-> m, rt |-> rt, fn |-> f, child |-> Fresh(f), at |-> at])
GRelease == /\ On("pause")
  /\ \E y \in Pick({z \in DOMAIN pend : pend[z].op.canc = "pause" /\ ~pend[z].canc}) :
       /\ Cancel(y[1], y[2])
       /\ hist' = Append(hist, [ev |-> "release", p |-> y[1], l |-> y[2]])
       /\ UNCHANGED <<n, phase, els>>
Children(p) == {c \in DOMAIN out : out[c].par = p /\ out[c].held
                   /\ \A y \in DOMAIN pend : pend[y].op.op \in {"join", "dropchild"} => pend[y].op.child # c}
GReturn == /\ On("return")
  /\ \E x \in Pick({y \in ReadyFree : y[1] # "root" /\ y[2] = "main" /\ AllIdle(y[1])}) :
     \E m \in Msgs(Avail(x[1]), FALSE) :
       /\ m.len < 60000
       /\ GCall(x[1], "main", [Base EXCEPT !.op = "return"] @@ [m |-> m])
GExit == /\ On("exit") /\ RandomElement(1..Profile.rare) = 1
  /\ \E x \in Pick({y \in ReadyFree : y[1] # "root" /\ NoSpawn(y[1])}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "exit"] @@ [code |-> RandomElement({0, 1, 7})])
GKill == /\ On("kill") /\ RandomElement(1..Profile.rare) = 1
  /\ \E p \in Pick({y \in DOMAIN up \ {"root"} : up[y] = "up" /\ Started(y) /\ NoSpawn(y)}) :
       /\ Kill(p)
       /\ hist' = Append(hist, [ev |-> "die", p |-> p])
       /\ UNCHANGED <<n, phase, els>>
GJoin == /\ On("join")
  \* Whoever waits for a process that is still busy is not the last one.
  /\ \E x \in Pick({y \in ReadyFree : \E c \in Children(y[1]) : up[c] # "up" \/ (On("wait") /\ Cardinality(Ready) > 1)}) :
     \E c \in Pick({z \in Children(x[1]) : up[z] # "up" \/ On("wait")}) :
     \E store \in Pick({"", Fresh("r")}) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "join", !.store = store] @@ [child |-> c])
GDropChild == /\ On("dropchild") /\ RandomElement(1..Profile.rare) = 1
  /\ \E x \in Pick(ReadyFree) : \E c \in Pick(Children(x[1])) :
       GCall(x[1], x[2], [Base EXCEPT !.op = "dropchild"] @@ [child |-> c])

\* Sends wait for room according to what the generator knows.
Fits(p, l) ==
  LET x == P(p, l)
      d == SendDir(ObjOf(p, x.op.h))
  IN (x.op.op \in {"send", "request"} /\ x.st = "c" /\ SendOK(ObjOf(p, x.op.h))) =>
       \/ Weight(q[d]) + SizeOf(x.m) <= Room
       \/ q[d] = << >> /\ \E y \in DOMAIN pend : /\ pend[y].op.op \in {"recv", "request"}
                                                /\ ObjOf(y[1], pend[y].op.h) = Other(ObjOf(p, x.op.h))
                                                /\ (pend[y].op.op = "recv" => pend[y].st = "c")
                                                /\ (pend[y].op.op = "request" => pend[y].st = "s")
                                                /\ ~pend[y].op.mortal
       \/ x.canc
Unnoticed == {p \in DOMAIN up : up[p] = "dead" /\ \A j \in 1..Len(hist) : hist[j].ev # "dead" \/ hist[j].p # p}
Quiet == [hist |-> hist, n |-> n, phase |-> phase]
GStep == \/ /\ \E x \in DOMAIN pend : /\ pend[x].op.canc = "pause" => pend[x].canc
                                   /\ Step(x[1], x[2]) /\ Fits(x[1], x[2])
            /\ UNCHANGED <<hist, n, phase, els>>
         \/ /\ \E x \in DOMAIN pend : Abort(x[1], x[2])
            /\ UNCHANGED <<hist, n, phase, els>>
         \/ /\ \E p \in DOMAIN up : Die(p)
            /\ UNCHANGED <<hist, n, phase, els>>
GRet == \E x \in DOMAIN pend :
          /\ Ret(x[1], x[2], pend[x].res)
          /\ hist' = Append(hist, [ev |-> "ret", p |-> x[1], l |-> x[2], res |-> pend[x].res])
          /\ UNCHANGED <<n, phase, els>>
GHello == \E c \in DOMAIN out :
          /\ out[c].args.t = "m"
          /\ Hello(c, Got(out[c].args))
          /\ hist' = Append(hist, [ev |-> "hello", p |-> c])
          /\ UNCHANGED <<n, phase, els>>
GDead == \E p \in Unnoticed :
          /\ hist' = Append(hist, [ev |-> "dead", p |-> p])
          /\ UNCHANGED <<wvars, n, phase, els>>
GStuck(x) == \/ Waiting(x[1], x[2])
             \/ ~Fits(x[1], x[2])
\* At the end, or when everyone waits for someone else.
GDrain == /\ phase = "run"
          /\ \/ Len(hist) >= Steps
             \/ (Ready = {} \/ Cardinality(DOMAIN up) >= MaxProcs) /\ Unnoticed = {} /\ \A x \in DOMAIN pend : pend[x].st \in {"c", "s"} /\ GStuck(x)
          /\ phase' = "drain"
          /\ UNCHANGED <<wvars, hist, n, els>>
GEnd == /\ phase = "drain"
        /\ Unnoticed = {}
        /\ \A c \in DOMAIN out : out[c].args.t # "m"
        /\ \A p \in DOMAIN up : up[p] # "dying"
        /\ \A x \in DOMAIN pend : pend[x].st \in {"c", "s"} /\ GStuck(x)
        /\ PrintT("SCENARIO " \o ToJson(hist))
        /\ phase' = "end"
        /\ UNCHANGED <<wvars, hist, n, els>>

GCalls == /\ phase = "run" /\ Unnoticed = {} /\ Len(hist) < Steps
Next ==
  \/ \E w \in 1..Wt("channel") : GCalls /\ GChannel
  \/ \E w \in 1..Wt("send") : GCalls /\ GSend
  \/ \E w \in 1..Wt("recv") : GCalls /\ GRecv
  \/ \E w \in 1..Wt("recv") : GCalls /\ GRecvSome
  \/ \E w \in 1..Wt("request") : GCalls /\ GRequest
  \/ \E w \in 1..Wt("cancel") : GCalls /\ GCancel
  \/ \E w \in 1..Wt("drop") : GCalls /\ GDrop
  \/ \E w \in 1..Wt("convert") : GCalls /\ GConvert
  \/ \E w \in 1..Wt("file") : GCalls /\ GFile
  \/ \E w \in 1..Wt("unix") : GCalls /\ GUnix
  \/ \E w \in 1..Wt("seek") : GCalls /\ GSeek
  \/ \E w \in 1..Wt("desc") : GCalls /\ GDesc
  \/ \E w \in 1..Wt("use") : GCalls /\ GUse
  \/ \E w \in 1..Wt("fds") : GCalls /\ GFds
  \/ \E w \in 1..Wt("limit") : GCalls /\ GLimit
  \/ \E w \in 1..Wt("spawn") : GCalls /\ GSpawn
  \/ \E w \in 1..Wt("pause") : GCalls /\ GRelease
  \/ phase = "drain" /\ GRelease
  \/ \E w \in 1..Wt("return") : GCalls /\ GReturn
  \/ \E w \in 1..Wt("exit") : GCalls /\ GExit
  \/ \E w \in 1..Wt("kill") : GCalls /\ GKill
  \/ \E w \in 1..Wt("join") : GCalls /\ GJoin
  \/ \E w \in 1..Wt("dropchild") : GCalls /\ GDropChild
  \/ \E w \in 1..Profile.pace : phase \in {"run", "drain"} /\ Unnoticed = {} /\ GStep
  \/ \E w \in 1..Profile.pace : phase \in {"run", "drain"} /\ Unnoticed = {} /\ GRet
  \/ \E w \in 1..2 : phase \in {"run", "drain"} /\ GHello
  \/ phase \in {"run", "drain"} /\ GDead
  \/ GDrain
  \/ GEnd
Spec == Init /\ [][Next]_gvars
Inv == TypeOK
=============================================================================
