------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* Processes, channels and handles of crossmist, at the level of its       *)
(* public interface.                                                       *)
(*                                                                         *)
(* A *process* owns *handles*; each refers to an *object*: one side of a   *)
(* channel or duplex ("e"), an open file description ("f") or one side of  *)
(* a plain Unix socket pair ("u").  Several handles, in any process, may   *)
(* refer to one object, and so do handles inside values that are on their  *)
(* way.  Every operation has a call, one or more internal steps at which   *)
(* it takes effect, and a return.                                          *)
(*                                                                         *)
(* WorldGen generates behaviours of this module, WorldTrace checks         *)
(* recorded executions of the real library against it and WorldMC checks   *)
(* its own invariants exhaustively within small bounds.                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  up,    \* process -> "up" | "dying" | "dead"
  own,   \* set of [p, h, o, k]: process p has object o under the name h, as kind k
  q,     \* direction <<channel, side of the sender>> -> sequence of entries
  shut,  \* directions that were given up after an interrupted transfer
  off,   \* file -> offset of the open file description
  ust,   \* <<socket pair, side of the writer>> -> tokens on their way
  pend,  \* <<process, lane>> -> operation in progress
  out,   \* child process -> [par, held, st, m]: its result as its parent sees it
  lim,   \* process -> number of descriptors it may still open, or -1
  junk   \* objects inside values that were transferred partly: open or not, nobody knows

wvars == <<up, own, q, shut, off, ust, pend, out, lim, junk>>

Min(a, b) == IF a < b THEN a ELSE b
Range(f) == {f[x] : x \in DOMAIN f}
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f

End(c, s) == [t |-> "e", n |-> c, s |-> s]
Other(o) == [o EXCEPT !.s = 1 - @]

Live(p) == p \in DOMAIN up /\ up[p] # "dead"
Has(p, h) == \E x \in own : x.p = p /\ x.h = h
Get(p, h) == CHOOSE x \in own : x.p = p /\ x.h = h
ObjOf(p, h) == Get(p, h).o

(***************************************************************************)
(* Which objects are still open: those some live process owns and those    *)
(* inside a value that can still be received.                              *)
(***************************************************************************)
\* Files matter to nobody but their owner.
Leaves(e) == IF e.t = "m" THEN e.ls ELSE {}
InQueue(d) == UNION {Leaves(q[d][i]) : i \in 1..Len(q[d])}
\* What can be received through the objects of S
Inside(S) == UNION {InQueue(<<o.n, 1 - o.s>>) : o \in {x \in S : x.t = "e"}}
RECURSIVE Closure(_, _)
Closure(S, T) == IF T \subseteq S THEN S ELSE Closure(S \cup T, Inside(T \ S))

Roots ==
  {x.o : x \in {y \in own : y.o.t # "f"}}
  \cup UNION {Leaves(out[c].m) :
                 c \in {z \in DOMAIN out : out[z].st = "ret" /\ out[z].held /\ Live(out[z].par)}}
Open == LET R == Roots IN Closure(R, Inside(R))
Alive(o) == \/ o \in Roots
            \/ o \in Open
\* Objects inside values that only they themselves could receive: the kernel gets rid of them at
\* some later time.
Reach(o) == LET I == Inside({o}) IN Closure(I, Inside(I))
InFlight == UNION {InQueue(d) : d \in DOMAIN q}
\* A process that is being created has copies of its parent's descriptors for a moment.
Ghosts == \E x \in DOMAIN pend : pend[x].op.op = "spawn"
Limbo(o) == \/ Ghosts
            \/ junk # {} /\ o \in Closure(junk, Inside(junk))
            \/ \E x \in InFlight : x \in Reach(x) /\ (o = x \/ o \in Reach(x))

(***************************************************************************)
(* Values.  `hs` names the handles a value carries, in order, `own` names  *)
(* each of them once and `sh` is the shape of the value around them.       *)
(***************************************************************************)
Value(p, m) ==
  LET mine == [h \in Range(m.own) |-> LET x == Get(p, h) IN [o |-> x.o, k |-> x.k]]
  IN [t |-> "m", id |-> m.id, len |-> m.len, sh |-> m.sh,
      lv |-> [i \in 1..Len(m.hs) |-> mine[m.hs[i]]],
      ls |-> {mine[h].o : h \in {z \in Range(m.own) : mine[z].o.t # "f"}}]
\* May need more than one packet
Multi(e) == e.t = "m" /\ (e.len > 15000 \/ Len(e.lv) > 100)
Torn == [t |-> "x"]
Leftover == [t |-> "l"]

SizeOf(e) == IF e.t = "m" THEN e.len + 100 ELSE 16000
RECURSIVE Weight(_)
Weight(s) == IF s = <<>> THEN 0 ELSE SizeOf(Head(s)) + Weight(Tail(s))

\* Programs look at all handles but keep the first few only (there are never more than that other
\* than plain files).
Kept(e) == Min(8, Len(e.lv))
\* What a process gains with a value: handles with names or, if it does not keep them, the objects
\* for a moment.
Gained(p, l, op, e) ==
  IF op.store = "" THEN {[p |-> p, h |-> "~" \o l, o |-> o, k |-> ""] : o \in e.ls}
  ELSE {[p |-> p, h |-> op.store \o "." \o ToString(i - 1), o |-> e.lv[i].o, k |-> e.lv[i].k] : i \in 1..Kept(e)}

Lost(p, names) == {x \in own : x.p = p /\ x.h \in names}

(***************************************************************************)
(* Kinds of channel ends and their conversions.                            *)
(***************************************************************************)
EndKinds == {r \o w : r \in {"B", "T", "S"}, w \in {"S", "R", "D"}}
Convert ==
  ("BS" :> ("t" :> "TS" @@ "s" :> "SS" @@ "raw" :> "BS")) @@
  ("BR" :> ("t" :> "TR" @@ "s" :> "SR" @@ "raw" :> "BR")) @@
  ("BD" :> ("t" :> "TD" @@ "s" :> "SD" @@ "raw" :> "BD" @@ "tx" :> "BS" @@ "rx" :> "BR")) @@
  ("TD" :> ("tx" :> "TS" @@ "rx" :> "TR")) @@
  ("SD" :> ("tx" :> "SS" @@ "rx" :> "SR"))
KindOf(rt, w) == (IF rt = "b" THEN "B" ELSE IF rt = "t" THEN "T" ELSE "S") \o w
IsSend(k) == k \in {"BS", "TS", "SS", "BD", "TD", "SD"}
IsRecv(k) == k \in {"BR", "TR", "SR", "BD", "TD", "SD"}
IsAsync(k) == k \in {"TS", "TR", "TD", "SS", "SR", "SD"}

SendDir(o) == <<o.n, o.s>>
RecvDir(o) == <<o.n, 1 - o.s>>
\* A send can succeed, or fail
SendOK(o) == SendDir(o) \notin shut /\ (Alive(Other(o)) \/ Limbo(Other(o)))
SendBad(o) == SendDir(o) \in shut \/ ~Alive(Other(o))
\* Nothing can be added to what the receiver at o can still obtain
AtEnd(o) == RecvDir(o) \in shut \/ ~Alive(Other(o))
NotAtEnd(o) == RecvDir(o) \notin shut /\ (Alive(Other(o)) \/ Limbo(Other(o)))

Ok == [r |-> "ok"]
Err == [r |-> "err"]
None == [r |-> "none"]
Cancelled == [r |-> "cancelled"]
Got(e) == [r |-> "val", id |-> e.id, len |-> e.len, sh |-> e.sh, lv |-> e.lv]

WInit ==
  /\ up = ("root" :> "up")
  /\ own = {}
  /\ q = << >>
  /\ shut = {}
  /\ off = << >>
  /\ ust = << >>
  /\ pend = << >>
  /\ out = << >>
  /\ lim = ("root" :> -1)
  /\ junk = {}

(***************************************************************************)
(* Calls.                                                                  *)
(***************************************************************************)
Idle(p, l) == <<p, l>> \notin DOMAIN pend

\* The value an operation carries is fixed when it is called.
Carries(op) == op.op \in {"send", "request", "spawn", "return"}

Call(p, l, op) ==
  /\ Live(p)
  /\ Idle(p, l)
  /\ pend' = With(pend, <<p, l>>,
       [op |-> op, st |-> "c", res |-> None, lost |-> FALSE, hl |-> FALSE,
        canc |-> (op.canc = "cut"),
        m |-> IF Carries(op) THEN Value(p, op.m) ELSE Torn,
        drop |-> IF Carries(op) /\ ~op.keep THEN Range(op.m.own) ELSE {}])
  /\ up' = IF op.mortal THEN [up EXCEPT ![p] = "dying"] ELSE up
  /\ UNCHANGED <<own, q, shut, off, ust, out, lim, junk>>

\* The operation may be given up from now on.
Cancel(p, l) ==
  /\ pend' = IF Idle(p, l) THEN pend ELSE [pend EXCEPT ![<<p, l>>].canc = TRUE]
  /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk>>

\* The process is being killed.
Kill(p) ==
  /\ up' = [up EXCEPT ![p] = IF @ = "dead" THEN "dead" ELSE "dying"]
  /\ UNCHANGED <<own, q, shut, off, ust, pend, out, lim, junk>>

Ret(p, l, res) ==
  /\ ~Idle(p, l)
  /\ pend[<<p, l>>].st = "d"
  /\ pend[<<p, l>>].res = res
  /\ pend' = Without(pend, <<p, l>>)
  /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk>>

(***************************************************************************)
(* Effects.  Each is one step of one pending operation.                    *)
(***************************************************************************)
P(p, l) == pend[<<p, l>>]
Done(p, l, res) == pend' = [pend EXCEPT ![<<p, l>>].st = IF P(p, l).drop = {} THEN "d" ELSE "f",
                                        ![<<p, l>>].res = res]
\* Done, with names to drop before returning
DoneDrop(p, l, res, names) ==
  pend' = [pend EXCEPT ![<<p, l>>].st = IF P(p, l).drop \cup names = {} THEN "d" ELSE "f",
                       ![<<p, l>>].res = res,
                       ![<<p, l>>].drop = @ \cup names]

\* The objects an operation used up go away before it returns.
Fin(p, l) ==
  /\ P(p, l).st = "f"
  /\ own' = own \ Lost(p, P(p, l).drop)
  /\ pend' = [pend EXCEPT ![<<p, l>>].st = "d", ![<<p, l>>].drop = {}]
  /\ UNCHANGED <<up, q, shut, off, ust, out, lim, junk>>

\* Sends in progress that push a value of several packets in direction d
Pushing(d) == {x \in DOMAIN pend :
   /\ pend[x].op.op \in {"send", "request"} /\ pend[x].st = "c"
   /\ Multi(pend[x].m)
   /\ Has(x[1], pend[x].op.h) /\ SendDir(ObjOf(x[1], pend[x].op.h)) = d}

MakeChannel(p, l) ==
  LET op == P(p, l).op
      ka == KindOf(op.rt, IF op.op = "duplex" THEN "D" ELSE "S")
      kb == KindOf(op.rt, IF op.op = "duplex" THEN "D" ELSE "R")
  IN /\ op.op \in {"channel", "duplex"}
     /\ own' = own \cup {[p |-> p, h |-> op.a, o |-> End(op.c, 0), k |-> ka],
                         [p |-> p, h |-> op.b, o |-> End(op.c, 1), k |-> kb]}
     /\ q' = (<<op.c, 0>> :> << >>) @@ (<<op.c, 1>> :> << >>) @@ q
     /\ Done(p, l, Ok)
     /\ UNCHANGED <<up, shut, off, ust, out, lim, junk>>

\* No socket holds more than this, so that more can be sent only to someone who is receiving.
MaxRoom == 290000
RECURSIVE Bytes(_)
Bytes(s) == IF s = << >> THEN 0 ELSE (IF Head(s).t = "m" THEN Head(s).len ELSE 0) + Bytes(Tail(s))
\* Somebody is taking from the end o.
Taking(o) == \E y \in DOMAIN pend : /\ \/ pend[y].op.op = "recv" /\ pend[y].st = "c"
                                       \/ pend[y].op.op = "request" /\ pend[y].st = "s"
                                    /\ ObjOf(y[1], pend[y].op.h) = o
Possible(x, o) == \/ x.hl \/ Taking(Other(o))
                  \/ Bytes(q[SendDir(o)]) + x.m.len <= MaxRoom

SendStep(p, l, after) ==
  LET x == P(p, l)
      o == ObjOf(p, x.op.h)
      d == SendDir(o)
  IN \/ /\ SendOK(o) /\ ~x.lost
        /\ Possible(x, o)
        /\ q' = [q EXCEPT ![d] = Append(@, IF x.hl THEN Leftover ELSE x.m)]
        /\ after
        /\ UNCHANGED <<up, own, shut, off, ust, out, lim, junk>>
     \/ /\ SendBad(o)
        /\ Done(p, l, Err)
        /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk>>
     \* The receiver gave up in the middle of this very value
     \/ /\ x.lost
        /\ \/ after
           \/ Done(p, l, Err)
        /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk>>
     \* Cancelled before anything was transferred, or in the middle
     \/ /\ x.canc
        /\ Done(p, l, Cancelled)
        /\ UNCHANGED <<up, own, off, ust, out, lim>>
        /\ \/ UNCHANGED <<q, shut, junk>>
           \/ /\ Multi(x.m) /\ SendOK(o)
              /\ shut' = shut \cup {d}
              /\ q' = IF x.lost THEN q ELSE [q EXCEPT ![d] = Append(@, Torn)]
              /\ junk' = junk \cup Leaves(x.m)
        
Send(p, l) ==
  /\ P(p, l).op.op = "send" /\ P(p, l).st = "c"
  /\ SendStep(p, l, Done(p, l, Ok))

\* The direction cannot be used any further.
Poison(d) ==
  /\ shut' = shut \cup {d}
  /\ q' = [q EXCEPT ![d] = << >>]
  /\ junk' = junk \cup InQueue(d) \cup UNION {Leaves(pend[y].m) : y \in Pushing(d)}

RecvStep(p, l, store) ==
  LET x == P(p, l)
      o == ObjOf(p, x.op.h)
      d == RecvDir(o)
      e == Head(q[d])
      eof == IF x.op.op = "request" THEN Err ELSE None
  IN \/ /\ q[d] # << >> /\ e.t = "m"
        /\ lim[p] < 0 \/ Len(e.lv) <= lim[p]
        /\ q' = [q EXCEPT ![d] = Tail(@)]
        /\ own' = own \cup Gained(p, l, x.op, e)
        /\ lim' = [lim EXCEPT ![p] = IF @ >= 0 /\ x.op.store # "" THEN @ - Kept(e) ELSE @]
        /\ DoneDrop(p, l, Got(e), IF x.op.store = "" THEN {g.h : g \in Gained(p, l, x.op, e)} ELSE {})
        /\ UNCHANGED <<up, shut, off, ust, out, junk>>
     \* Not enough descriptors
     \/ /\ q[d] # << >> /\ e.t = "m"
        /\ lim[p] >= 0 /\ Len(e.lv) > lim[p]
        /\ Done(p, l, Err)
        /\ \/ q' = [q EXCEPT ![d] = Tail(@)] /\ UNCHANGED <<shut, junk>>
           \/ Multi(e) /\ Poison(d)
        /\ UNCHANGED <<up, own, off, ust, out, lim>>
     \* Something that was transferred partly
     \/ /\ q[d] # << >>
        /\ \/ e.t = "l"
           \/ e.t = "x" /\ (Len(q[d]) > 1 \/ AtEnd(o))
        /\ Done(p, l, Err)
        /\ Poison(d)
        /\ UNCHANGED <<up, own, off, ust, out, lim>>
     \/ /\ q[d] = << >> /\ AtEnd(o)
        /\ Done(p, l, eof)
        /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk>>
     \/ /\ x.canc
        /\ UNCHANGED <<up, own, off, ust, out, lim>>
        /\ \/ Done(p, l, Cancelled) /\ UNCHANGED <<q, shut, junk>>
           \/ /\ \/ q[d] # << >> /\ (e.t = "x" \/ Multi(e))
                 \/ Pushing(d) # {}
              /\ Poison(d)
              /\ pend' = [y \in DOMAIN pend |->
                    IF y \in Pushing(d) THEN [pend[y] EXCEPT !.lost = TRUE]
                    ELSE IF y = <<p, l>>
                    THEN [pend[y] EXCEPT !.st = IF x.drop = {} THEN "d" ELSE "f", !.res = Cancelled]
                    ELSE pend[y]]

Recv(p, l) ==
  /\ P(p, l).op.op = "recv" /\ P(p, l).st = "c"
  /\ RecvStep(p, l, P(p, l).op.store)

\* A request is a send followed by a receive on the same end.
Request(p, l) ==
  /\ P(p, l).op.op = "request"
  /\ \/ /\ P(p, l).st = "c"
        /\ SendStep(p, l, pend' = [pend EXCEPT ![<<p, l>>].st = "s"])
     \/ /\ P(p, l).st = "s"
        /\ RecvStep(p, l, P(p, l).op.store)

Drop(p, l) ==
  LET op == P(p, l).op
  IN /\ op.op = "drop"
     /\ own' = own \ Lost(p, {op.h})
     /\ Done(p, l, Ok)
     /\ UNCHANGED <<up, q, shut, off, ust, out, lim, junk>>

ConvertEnd(p, l) ==
  LET op == P(p, l).op
      x == Get(p, op.h)
  IN /\ op.op = "convert"
     /\ own' = (own \ {x}) \cup {[x EXCEPT !.k = Convert[@][op.to]]}
     /\ Done(p, l, Ok)
     /\ UNCHANGED <<up, q, shut, off, ust, out, lim, junk>>

MakeFile(p, l) ==
  LET op == P(p, l).op
  IN /\ op.op = "mkfile"
     /\ own' = own \cup {[p |-> p, h |-> op.h, o |-> [t |-> "f", n |-> op.f, s |-> 0], k |-> op.k]}
     /\ off' = With(off, op.f, op.off)
     /\ Done(p, l, Ok)
     /\ UNCHANGED <<up, q, shut, ust, out, lim, junk>>

MakeUnix(p, l) ==
  LET op == P(p, l).op
      o(s) == [t |-> "u", n |-> op.u, s |-> s]
  IN /\ op.op = "mkunix"
     /\ own' = own \cup {[p |-> p, h |-> op.a, o |-> o(0), k |-> op.k],
                         [p |-> p, h |-> op.b, o |-> o(1), k |-> op.k]}
     /\ ust' = (<<op.u, 0>> :> << >>) @@ (<<op.u, 1>> :> << >>) @@ ust
     /\ Done(p, l, Ok)
     /\ UNCHANGED <<up, q, shut, off, out, lim, junk>>

Seek(p, l) ==
  LET op == P(p, l).op
  IN /\ op.op = "seek"
     /\ off' = [off EXCEPT ![ObjOf(p, op.h).n] = op.off]
     /\ Done(p, l, Ok)
     /\ UNCHANGED <<up, own, q, shut, ust, out, lim, junk>>

\* What a handle refers to
Desc(p, l) ==
  LET op == P(p, l).op
      x == Get(p, op.h)
  IN /\ op.op = "desc"
     /\ Done(p, l, [r |-> "desc", o |-> x.o, k |-> x.k, off |-> IF x.o.t = "f" THEN off[x.o.n] ELSE -1])
     /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk>>

\* Reading and writing through the handle itself: four bytes at a time
UseFile(p, l) ==
  LET op == P(p, l).op
      o == ObjOf(p, op.h)
  IN /\ op.op = "use" /\ o.t = "f"
     /\ off' = [off EXCEPT ![o.n] = @ + 4]
     /\ Done(p, l, [r |-> "use", n |-> 4, data |-> ""])
     /\ UNCHANGED <<up, own, q, shut, ust, out, lim, junk>>
UseUnix(p, l) ==
  LET op == P(p, l).op
      o == ObjOf(p, op.h)
      w == <<o.n, o.s>>
      r == <<o.n, 1 - o.s>>
  IN /\ op.op = "use" /\ o.t = "u"
     /\ \/ /\ op.write /\ (Alive(Other(o)) \/ Limbo(Other(o)))
           /\ ust' = [ust EXCEPT ![w] = Append(@, op.data)]
           /\ Done(p, l, [r |-> "use", n |-> 4, data |-> ""])
        \/ /\ op.write /\ ~Alive(Other(o))
           /\ Done(p, l, Err)
           /\ UNCHANGED ust
        \/ /\ ~op.write /\ ust[r] # << >>
           /\ ust' = [ust EXCEPT ![r] = Tail(@)]
           /\ Done(p, l, [r |-> "use", n |-> 4, data |-> Head(ust[r])])
        \/ /\ ~op.write /\ ust[r] = << >> /\ ~Alive(Other(o))
           \* End of stream, or a reset if the peer went without reading everything
           /\ \/ Done(p, l, [r |-> "use", n |-> 0, data |-> ""])
              \/ ust[w] # << >> /\ Done(p, l, Err)
           /\ UNCHANGED ust
     /\ UNCHANGED <<up, own, q, shut, off, out, lim, junk>>

\* The descriptors of the process: which objects, how often, and how many channels to children
\* or to the parent.
Count(p, o) == Cardinality({x \in own : x.p = p /\ x.o = o})
Holdings(p) == {[o |-> o, n |-> Count(p, o)] : o \in {x.o : x \in {y \in own : y.p = p}}}
ChildChannels(p) == Cardinality({c \in DOMAIN out : out[c].par = p /\ out[c].held})
                    + (IF p \in DOMAIN out THEN 1 ELSE 0)
Fds(p, l) ==
  /\ P(p, l).op.op = "fds"
  /\ Done(p, l, [r |-> "fds", fds |-> Holdings(p), cc |-> ChildChannels(p)])
  /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk>>

\* An unrelated program started by the process has none of them.
ExecLs(p, l) ==
  /\ P(p, l).op.op = "execls"
  /\ Done(p, l, [r |-> "fds", fds |-> {}, cc |-> 0])
  /\ UNCHANGED <<up, own, q, shut, off, ust, out, lim, junk>>

Limit(p, l) ==
  /\ P(p, l).op.op \in {"rlimit_free", "rlimit_reset"}
  /\ lim' = [lim EXCEPT ![p] = IF P(p, l).op.op = "rlimit_free" THEN P(p, l).op.free ELSE -1]
  /\ Done(p, l, Ok)
  /\ UNCHANGED <<up, own, q, shut, off, ust, out, junk>>

(***************************************************************************)
(* Processes.                                                              *)
(***************************************************************************)
NoValue == [t |-> "m", id |-> 0, len |-> 0, sh |-> "", lv |-> << >>, ls |-> {}]

Spawn(p, l) ==
  LET x == P(p, l)
      c == x.op.child
  IN /\ x.op.op = "spawn" /\ x.st = "c"
     /\ up' = With(up, c, "up")
     /\ lim' = With(lim, c, -1)
     /\ out' = With(out, c, [par |-> p, held |-> TRUE, st |-> "run", m |-> NoValue, args |-> x.m])
     /\ own' = own \cup {[p |-> c, h |-> "a." \o ToString(i - 1), o |-> x.m.lv[i].o, k |-> x.m.lv[i].k]
                           : i \in 1..Kept(x.m)}
     /\ Done(p, l, Ok)
     /\ UNCHANGED <<q, shut, off, ust, junk>>

\* The function starts, with its arguments.
Hello(c, v) ==
  /\ c \in DOMAIN out /\ up[c] # "dead"
  /\ out[c].args.t = "m"
  /\ v = Got(out[c].args)
  /\ out' = [out EXCEPT ![c].args = Torn]
  /\ UNCHANGED <<up, own, q, shut, off, ust, pend, lim, junk>>

\* The function returns: the result is on its way, and the process ends.
Return(p, l) ==
  LET x == P(p, l)
  IN /\ x.op.op = "return" /\ x.st = "c"
     /\ out' = [out EXCEPT ![p].st = "ret", ![p].m = x.m]
     /\ up' = [up EXCEPT ![p] = "dying"]
     /\ pend' = Without(pend, <<p, l>>)
     /\ UNCHANGED <<own, q, shut, off, ust, lim, junk>>

Exit(p, l) ==
  /\ P(p, l).op.op = "exit"
  /\ up' = [up EXCEPT ![p] = "dying"]
  /\ pend' = Without(pend, <<p, l>>)
  /\ UNCHANGED <<own, q, shut, off, ust, out, lim, junk>>

Join(p, l) ==
  LET x == P(p, l)
      c == x.op.child
      e == out[c].m
  IN /\ x.op.op = "join" /\ x.st = "c"
     /\ up[c] = "dead"
     /\ out' = [out EXCEPT ![c].held = FALSE]
     /\ \/ /\ out[c].st = "ret"
           /\ own' = own \cup Gained(p, l, x.op, e)
           /\ DoneDrop(p, l, Got(e), IF x.op.store = "" THEN {g.h : g \in Gained(p, l, x.op, e)} ELSE {})
        \/ /\ out[c].st # "ret"
           /\ own' = own
           /\ Done(p, l, Err)
     /\ UNCHANGED <<up, q, shut, off, ust, lim, junk>>

\* Forgetting a child without joining it
DropChild(p, l) ==
  LET c == P(p, l).op.child
  IN /\ P(p, l).op.op = "dropchild"
     /\ out' = [out EXCEPT ![c].held = FALSE]
     /\ Done(p, l, Ok)
     /\ UNCHANGED <<up, own, q, shut, off, ust, lim, junk>>

(***************************************************************************)
(* The end of a process.  What it was doing may have happened, not         *)
(* happened, or happened partly.                                           *)
(***************************************************************************)
Abort(p, l) ==
  LET x == P(p, l)
  IN /\ up[p] = "dying"
     /\ UNCHANGED <<up, own, shut, off, ust, out, lim>>
     /\ \/ pend' = Without(pend, <<p, l>>) /\ q' = q /\ junk' = junk
        \/ /\ x.op.op \in {"send", "request"} /\ x.st = "c" /\ Multi(x.m) /\ ~x.lost
           /\ LET o == ObjOf(p, x.op.h)
              IN /\ SendOK(o)
                 /\ q' = [q EXCEPT ![SendDir(o)] = Append(@, IF x.hl THEN Leftover ELSE Torn)]
                 /\ junk' = junk \cup Leaves(x.m)
           /\ pend' = Without(pend, <<p, l>>)
        \/ /\ (x.op.op = "recv" /\ x.st = "c") \/ (x.op.op = "request" /\ x.st = "s")
           /\ LET o == ObjOf(p, x.op.h)
                  d == RecvDir(o)
              IN \/ /\ q[d] # << >>
                    /\ q' = [q EXCEPT ![d] = Tail(@)]
                    /\ junk' = junk
                    /\ pend' = Without(pend, <<p, l>>)
                 \/ /\ q[d] # << >> /\ (Multi(Head(q[d])) \/ Head(q[d]).t = "x")
                    /\ q' = [q EXCEPT ![d][1] = Leftover]
                    /\ junk' = junk \cup Leaves(Head(q[d]))
                    /\ pend' = Without(pend, <<p, l>>)
                 \/ /\ Pushing(d) # {}
                    /\ q' = q
                    /\ junk' = junk \cup UNION {Leaves(pend[y].m) : y \in Pushing(d)}
                    /\ pend' = [y \in DOMAIN pend \ {<<p, l>>} |->
                          IF y \in Pushing(d) THEN [pend[y] EXCEPT !.hl = TRUE] ELSE pend[y]]

Die(p) ==
  /\ up[p] = "dying"
  /\ \A x \in DOMAIN pend : x[1] # p
  /\ up' = [up EXCEPT ![p] = "dead"]
  /\ own' = {x \in own : x.p # p}
  /\ UNCHANGED <<q, shut, off, ust, pend, out, lim, junk>>

Dead(p) == up[p] = "dead" /\ UNCHANGED wvars

\* One internal step of the operation in lane l of process p
Step(p, l) ==
  /\ Live(p)
  /\ IF P(p, l).st = "f" THEN Fin(p, l)
     ELSE /\ P(p, l).st # "d"
          /\ CASE P(p, l).op.op \in {"channel", "duplex"} -> MakeChannel(p, l)
               [] P(p, l).op.op = "send" -> Send(p, l)
               [] P(p, l).op.op = "recv" -> Recv(p, l)
               [] P(p, l).op.op = "request" -> Request(p, l)
               [] P(p, l).op.op = "drop" -> Drop(p, l)
               [] P(p, l).op.op = "convert" -> ConvertEnd(p, l)
               [] P(p, l).op.op = "mkfile" -> MakeFile(p, l)
               [] P(p, l).op.op = "mkunix" -> MakeUnix(p, l)
               [] P(p, l).op.op = "seek" -> Seek(p, l)
               [] P(p, l).op.op = "desc" -> Desc(p, l)
               [] P(p, l).op.op = "use" -> (IF ObjOf(p, P(p, l).op.h).t = "f" THEN UseFile(p, l) ELSE UseUnix(p, l))
               [] P(p, l).op.op = "fds" -> Fds(p, l)
               [] P(p, l).op.op = "execls" -> ExecLs(p, l)
               [] P(p, l).op.op \in {"rlimit_free", "rlimit_reset"} -> Limit(p, l)
               [] P(p, l).op.op = "spawn" -> Spawn(p, l)
               [] P(p, l).op.op = "return" -> Return(p, l)
               [] P(p, l).op.op = "exit" -> Exit(p, l)
               [] P(p, l).op.op = "join" -> Join(p, l)
               [] P(p, l).op.op = "dropchild" -> DropChild(p, l)

Internal ==
  \/ \E x \in DOMAIN pend : Step(x[1], x[2]) \/ Abort(x[1], x[2])
  \/ \E p \in DOMAIN up : Die(p)

(***************************************************************************)
(* An operation that has not returned although everything is quiet must be *)
(* one that has to wait.                                                   *)
(***************************************************************************)
Room == 60000
Waiting(p, l) ==
  LET x == P(p, l)
      o == ObjOf(p, x.op.h)
  IN \/ /\ \/ x.op.op = "recv" /\ x.st = "c"
           \/ x.op.op = "request" /\ x.st = "s"
        /\ NotAtEnd(o)
        /\ \/ q[RecvDir(o)] = << >>
           \/ Len(q[RecvDir(o)]) = 1 /\ Head(q[RecvDir(o)]).t = "x"
        /\ ~x.canc
     \/ /\ x.op.op \in {"send", "request"} /\ x.st = "c"
        /\ SendOK(o) /\ ~x.lost
        /\ Weight(q[SendDir(o)]) + SizeOf(x.m) > Room
        \* A receiver that has nothing to take makes room.
        /\ ~(q[SendDir(o)] = << >> /\ Taking(Other(o)))
        /\ ~x.canc
     \* Nobody wakes up a task that waits for room in a direction it has given up itself, until
     \* the receiver makes room.
     \/ /\ x.op.op \in {"send", "request"} /\ x.st = "c"
        /\ SendDir(o) \in shut /\ q[SendDir(o)] # << >>
        /\ ~x.canc
     \/ /\ x.op.op = "join" /\ x.st = "c"
        /\ up[x.op.child] # "dead"
     \/ /\ x.op.op = "use" /\ ~x.op.write /\ o.t = "u"
        /\ ust[<<o.n, 1 - o.s>>] = << >> /\ (Alive(Other(o)) \/ Limbo(Other(o)))

(***************************************************************************)
(* What must always be true of these states.                               *)
(***************************************************************************)
TypeOK ==
  /\ \A x \in own : x.p \in DOMAIN up /\ up[x.p] # "dead"
  /\ \A x \in own, y \in own : x.p = y.p /\ x.h = y.h => x = y \/ x.k = ""
  /\ \A d \in shut : d \in DOMAIN q
  /\ \A p \in DOMAIN up : up[p] \in {"up", "dying", "dead"}
=============================================================================
