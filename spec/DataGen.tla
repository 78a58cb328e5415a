------------------------------ MODULE DataGen ------------------------------
(***************************************************************************)
(* Random histories of values: processes build values of any type, hand    *)
(* them to each other as arguments, over channels and as results, read     *)
(* delayed ones, take things apart and call functions.  What every process *)
(* must see at every step follows from Codec.                              *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

Profile == ndJsonDeserialize(IOEnv.PROFILE)[1]
Table == ndJsonDeserialize(IOEnv.TYPES)[1]
AllTypes == Table.types
Top == Table.top                 \* types of values that are passed around
TopOf == Table.of                \* index in Top for a type, or 0
FnSigs == Table.fns              \* functions with several parameters of their own: types of these
Wt(a) == IF a \in DOMAIN Profile.w THEN Profile.w[a] ELSE 0

VARIABLES procs, slots, wires, nx, hist, phase
vars == <<procs, slots, wires, nx, hist, phase>>
\* procs[p]: parent, whether it runs, its result
\* slots[p]: what process p has: key -> type and value
\* wires[p]: bundles on their way between p and its parent
\* nx: identities used so far

(***************************************************************************)
(* Values at random, but always the same for the same seed.                *)
(***************************************************************************)
Next1(g) == [g EXCEPT !.s = (@ * 1103 + 12345) % 1000003]
Rnd(g, n) == (g.s \div 16) % n
Spend(g) == [Next1(g) EXCEPT !.fuel = @ - 1]

RECURSIVE Gen(_, _), GenAll(_, _, _)
GenAll(ts, g, acc) ==
  IF Len(acc) = Len(ts) THEN [v |-> acc, g |-> g]
  ELSE LET x == TLCEval(Gen(ts[Len(acc) + 1], g)) IN GenAll(ts, x.g, TLCEval(Append(acc, x.v)))

\* One of each, in the order of the first occurrences.
RECURSIVE Distinct(_, _, _)
Distinct(xs, key(_), acc) ==
  IF xs = << >> THEN acc
  ELSE Distinct(Tail(xs), key, IF \E i \in DOMAIN acc : key(acc[i]) = key(Head(xs)) THEN acc ELSE Append(acc, Head(xs)))

LenOf(g) == IF g.fuel <= 0 THEN 0 ELSE LET r == Rnd(g, 10) IN IF r = 0 THEN 0 ELSE IF r <= 4 THEN 1 ELSE IF r <= 7 THEN 2 ELSE IF r = 8 THEN 3 ELSE 5

Gen(t, g0) ==
  LET ty == Types[t]
      g == TLCEval(Spend(g0))
  IN CASE ty.k \in {"leaf", "fn"} -> [v |-> T(Rnd(g, ty.n), << >>), g |-> g]
       [] ty.k = "tuple" -> LET x == GenAll(ty.a[1], g, << >>) IN [v |-> T(0, x.v), g |-> x.g]
       [] ty.k = "sum" ->
            LET i == IF g.fuel > 0 THEN ty.ok[Rnd(g, Len(ty.ok)) + 1] ELSE ty.b
                x == TLCEval(GenAll(ty.a[i + 1], Next1(g), << >>))
            IN [v |-> T(i, x.v), g |-> x.g]
       [] ty.k \in {"seq", "set", "bag"} ->
            LET e == ty.a[1][1]
                n == IF Types[e].h >= 99 THEN 0 ELSE LenOf(g)
                rep == IF ty.k = "seq" /\ n > 0 /\ g.rep /\ Types[e].f /\ Rnd(Next1(g), 3) = 0
                       THEN IF Types[e].sm THEN 40 + 100 * Rnd(Next1(g), 50) ELSE 20 ELSE 1
                x == TLCEval(GenAll([i \in 1..n |-> e], [Next1(Next1(g)) EXCEPT !.rep = @ /\ rep = 1], << >>))
            IN [v |-> T(rep, IF ty.k = "set" THEN Distinct(x.v, LAMBDA y : y, << >>) ELSE x.v), g |-> x.g]
       [] ty.k = "map" ->
            LET n == LenOf(g)
                one(acc, i) == LET x == GenAll(ty.a[1], acc.g, << >>) IN [v |-> Append(acc.v, T(0, x.v)), g |-> x.g]
                all == FoldLeft(one, [v |-> << >>, g |-> Next1(g)], [i \in 1..n |-> i])
            IN [v |-> T(0, Distinct(all.v, LAMBDA y : y.c[1], << >>)), g |-> all.g]
       [] ty.k = "handle" -> [v |-> T(1 + Rnd(g, 5), << >>), g |-> g]
       [] ty.k = "rc" ->
            LET have == SelectSeq(g.pool, LAMBDA e : e.t = t)
            IN IF have # << >> /\ Rnd(g, 5) < 3
               THEN [v |-> have[Rnd(Next1(g), Len(have)) + 1].v, g |-> Next1(g)]
               ELSE LET id == g.id + 1
                        x == Gen(ty.a[1][1], [Next1(g) EXCEPT !.id = id])
                        v == T(id, <<x.v>>)
                    IN [v |-> v, g |-> [x.g EXCEPT !.pool = Append(@, [t |-> t, v |-> v])]]
       [] ty.k = "delayed" ->
            \* Shares nothing with the rest.
            LET x == Gen(ty.a[1][1], [g EXCEPT !.pool = << >>])
            IN [v |-> T(0, <<x.v>>), g |-> [x.g EXCEPT !.pool = g.pool]]
       [] ty.k = "clo" ->
            LET i == Rnd(g, Len(ty.s))
                h == [j \in 1..Len(ty.s[i + 1]) |-> T((Rnd(Next1(g), 900) * (7 + j)) % 1009, << >>)]
            IN [v |-> T(i, h), g |-> Next1(Next1(g))]

NewGen(seed, id) == [s |-> seed, fuel |-> Profile.fuel, id |-> id, pool |-> << >>, rep |-> TRUE]

(***************************************************************************)
(* Processes                                                               *)
(***************************************************************************)
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Running == {p \in DOMAIN procs : procs[p].on}
Keys(p) == DOMAIN slots[p]
TypeOf(y) == Top[y].t
Ts(bs) == [i \in DOMAIN bs |-> TypeOf(bs[i].y)]
Vs(bs) == [i \in DOMAIN bs |-> bs[i].v]

\* Delayed values that were received cannot be written again.
RECURSIVE Sealed(_, _)
Sealed(t, v) ==
  LET ty == Types[t]
  IN IF ty.f THEN FALSE
     ELSE CASE ty.k = "delayed" -> v.n = 1
            [] ty.k = "map" -> \E i \in DOMAIN v.c : Sealed(ty.a[1][2], v.c[i].c[2])
            [] OTHER -> LET ps == Parts(t, v) IN \E i \in DOMAIN ps : Sealed(ps[i], v.c[i])
Sendable(p) == {k \in Keys(p) : ~Sealed(TypeOf(slots[p][k].y), slots[p][k].v)}

\* A bundle is written in one session.
PackB(bs) == LET s == TLCEval(Pack(TLCEval(Ts(bs)), TLCEval(Vs(bs)))) IN [ys |-> [i \in DOMAIN bs |-> bs[i].y], w |-> s.w, h |-> s.h]
UnpackB(b, base) ==
  LET x == TLCEval(Unpack(TLCEval([i \in DOMAIN b.ys |-> TypeOf(b.ys[i])]), b.w, b.h, base))
  IN IF AllRead(x.r) THEN [bs |-> [i \in DOMAIN b.ys |-> [y |-> b.ys[i], v |-> x.v[i]]], id |-> base + Len(x.r.objs)]
     ELSE Assert(FALSE, <<"not all read", b>>)

\* Slot keys nx+1, nx+2, ...
Fresh(bs) == [i \in DOMAIN bs |-> nx + i]
WithNew(f, bs) == [k \in DOMAIN f \cup {nx + i : i \in DOMAIN bs} |-> IF k \in DOMAIN f THEN f[k] ELSE bs[k - nx]]
Without(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
CountIn(f) == LET ks == TLCEval(SetToSeq(DOMAIN f)) IN Handles([i \in DOMAIN ks |-> TypeOf(f[ks[i]].y)], [i \in DOMAIN ks |-> f[ks[i]].v])
Shown(bs) == [i \in DOMAIN bs |-> [t |-> TypeOf(bs[i].y), v |-> bs[i].v]]
Log(e) == hist' = hist \o e
Do(p, f) == slots' = [slots EXCEPT ![p] = f]
Ev(p, op, more, f) == [p |-> p, op |-> op, fds |-> CountIn(f)] @@ more

\* Some of a set, in some order
Some(S, lo, hi) ==
  IF Cardinality(S) < lo THEN {}
  ELSE LET n == RandomElement(lo..(IF Cardinality(S) < hi THEN Cardinality(S) ELSE hi))
           pick(acc, i) == LET k == RandomElement(acc.s) IN [s |-> acc.s \ {k}, q |-> Append(acc.q, k)]
       IN {FoldLeft(pick, [s |-> S, q |-> << >>], [i \in 1..n |-> i]).q}
At(p, ks) == [i \in DOMAIN ks |-> slots[p][ks[i]]]
Size(w) == w.w

Room(p) == Cardinality(Keys(p)) < Profile.slots

DBuild ==
  \E p \in Pick({p \in Running : Room(p)}), n \in Pick(1..3), seed \in {RandomElement(1..1000000)} :
  \E ys \in {[i \in 1..n |-> Profile.tops[RandomElement(DOMAIN Profile.tops)]]} :
  LET x == TLCEval(GenAll([i \in 1..n |-> TypeOf(ys[i])], NewGen(seed, nx + n), << >>))
      bs == TLCEval([i \in 1..n |-> [y |-> ys[i], v |-> x.v[i]]])
      f == TLCEval(WithNew(slots[p], bs))
  IN /\ Do(p, f)
     /\ nx' = x.g.id + n
     /\ Log(<<Ev(p, "build", [ty |-> ys, v |-> x.v, dst |-> Fresh(bs), x |-> Shown(bs)], f)>>)
     /\ UNCHANGED <<procs, wires, phase>>

DDirect ==
  \E p \in Pick({p \in Running : Room(p)}) : \E ks \in Some(Sendable(p), 1, 3) :
  LET bs == TLCEval(At(p, ks))
      b == TLCEval(UnpackB(PackB(bs), nx + Len(ks)))
      f == TLCEval(WithNew(slots[p], b.bs))
  IN /\ Do(p, f)
     /\ nx' = b.id
     /\ Log(<<Ev(p, "direct", [src |-> ks, dst |-> Fresh(b.bs), x |-> Shown(b.bs)], f)>>)
     /\ UNCHANGED <<procs, wires, phase>>

DSpawn ==
  /\ Len(procs) < Profile.procs
  /\ \E p \in Pick(Running) : \E ks \in Some(Sendable(p), 0, 4), rt \in Pick({"b", "tokio", "smol"}), fn \in Pick({"b", "tokio", "smol"}) :
     LET bs == TLCEval(At(p, ks))
         b == TLCEval(UnpackB(PackB(bs), nx + Len(ks)))
         q == Len(procs) + 1
         f == TLCEval(Without(slots[p], Range(ks)))
         g == TLCEval([k \in {nx + i : i \in DOMAIN b.bs} |-> b.bs[k - nx]])
     IN /\ procs' = Append(procs, [up |-> p, on |-> TRUE, res |-> << >>])
        /\ slots' = Append([slots EXCEPT ![p] = f], g)
        /\ wires' = Append(wires, [up |-> << >>, down |-> << >>])
        /\ nx' = b.id
        /\ Log(<<Ev(p, "spawn", [q |-> q, src |-> ks, rt |-> rt, fn |-> fn], f),
                 Ev(q, "args", [dst |-> Fresh(b.bs), x |-> Shown(b.bs)], g)>>)
        /\ UNCHANGED phase

\* Large values are only sent while nothing comes the other way, else both could wait for each other.
DSend ==
  \E q \in Pick({q \in 2..Len(procs) : procs[q].on}) : \E down \in Pick({TRUE, FALSE}) :
  LET p == IF down THEN procs[q].up ELSE q IN
  /\ p \in Running
  /\ IF down THEN wires[q].up = << >> ELSE wires[q].down = << >>
  /\ Len(wires[q].up) + Len(wires[q].down) < 3
  /\ \E ks \in Some(Sendable(p), 1, 4) :
     LET b == TLCEval(PackB(At(p, ks))) IN
     /\ wires' = IF down THEN [wires EXCEPT ![q].down = Append(@, b)] ELSE [wires EXCEPT ![q].up = Append(@, b)]
     /\ Log(<<Ev(p, "send", [q |-> IF down THEN q ELSE 0, src |-> ks], slots[p])>>)
     /\ UNCHANGED <<procs, slots, nx, phase>>

DRecv ==
  \E q \in Pick({q \in 2..Len(procs) : wires[q].up # << >> \/ wires[q].down # << >>}) :
  LET down == wires[q].down # << >>
      p == IF down THEN q ELSE procs[q].up
      b == IF down THEN wires[q].down[1] ELSE wires[q].up[1]
      u == TLCEval(UnpackB(b, nx + Len(b.ys)))
      f == TLCEval(WithNew(slots[p], u.bs))
  IN /\ Do(p, f)
     /\ wires' = IF down THEN [wires EXCEPT ![q].down = Tail(@)] ELSE [wires EXCEPT ![q].up = Tail(@)]
     /\ nx' = u.id
     /\ Log(<<Ev(p, "recv", [q |-> IF down THEN 0 ELSE q, dst |-> Fresh(u.bs), x |-> Shown(u.bs)], f)>>)
     /\ UNCHANGED <<procs, phase>>

DReturn ==
  \E q \in Pick({q \in Running \ {1} : wires[q] = [up |-> << >>, down |-> << >>] /\ \A c \in DOMAIN procs : procs[c].up # q}) :
  \E ks \in Some(Sendable(q), 0, 3) :
  /\ procs' = [procs EXCEPT ![q].on = FALSE, ![q].res = <<PackB(At(q, ks))>>]
  /\ Do(q, << >>)
  /\ Log(<<[p |-> q, op |-> "ret", src |-> ks]>>)
  /\ UNCHANGED <<wires, nx, phase>>

DJoin ==
  \E q \in Pick({q \in 2..Len(procs) : ~procs[q].on /\ procs[q].res # << >>}) :
  LET p == procs[q].up
      u == TLCEval(UnpackB(procs[q].res[1], nx + Len(procs[q].res[1].ys)))
      f == TLCEval(WithNew(slots[p], u.bs))
  IN /\ Do(p, f)
     /\ procs' = [procs EXCEPT ![q].res = << >>, ![q].up = 0]
     /\ nx' = u.id
     /\ Log(<<Ev(p, "join", [q |-> q, dst |-> Fresh(u.bs), x |-> Shown(u.bs)], f)>>)
     /\ UNCHANGED <<wires, phase>>

\* A function with parameters of certain types runs in a process of its own and gives all of them back.
DApply ==
  \E p \in Pick({p \in Running : Room(p)}), j \in Pick(DOMAIN FnSigs), seed \in {RandomElement(1..1000000)},
     rt \in Pick({"b", "tokio", "smol", "run"}) :
  LET ys == FnSigs[j]
      x == TLCEval(GenAll([i \in DOMAIN ys |-> TypeOf(ys[i])], NewGen(seed, nx + Len(ys)), << >>))
      bs == TLCEval([i \in DOMAIN ys |-> [y |-> ys[i], v |-> x.v[i]]])
      \* what comes back was written twice
      once == TLCEval(UnpackB(PackB(bs), x.g.id))
      \* delayed parameters are read before they are given back
      read == TLCEval([i \in DOMAIN ys |->
                 LET b == once.bs[i]
                     ty == Types[TypeOf(b.y)]
                 IN IF ty.k = "delayed" THEN [y |-> TopOf[ty.a[1][1]], v |-> Undelay(TypeOf(b.y), b.v, 0).v[1]] ELSE b])
      u == TLCEval(UnpackB(PackB(read), once.id))
      f == TLCEval(WithNew(slots[p], u.bs))
  IN /\ Do(p, f)
     /\ nx' = u.id
     /\ Log(<<Ev(p, "apply", [f |-> j - 1, ty |-> ys, v |-> x.v, rt |-> rt, dst |-> Fresh(bs), x |-> Shown(u.bs)], f)>>)
     /\ UNCHANGED <<procs, wires, phase>>

Kind(p, k) == Types[TypeOf(slots[p][k].y)]
DUndelay ==
  \E p \in Pick(Running) : \E k \in Pick({k \in Keys(p) : Kind(p, k).k = "delayed" /\ slots[p][k].v.n = 1}) :
  LET t == TypeOf(slots[p][k].y)
      u == Undelay(t, slots[p][k].v, nx + 1)
      bs == <<[y |-> TopOf[Types[t].a[1][1]], v |-> u.v[1]]>>
      f == TLCEval(WithNew(Without(slots[p], {k}), bs))
  IN /\ Do(p, f)
     /\ nx' = nx + 1 + Len(u.r.objs)
     /\ Log(<<Ev(p, "undelay", [slot |-> k, to |-> nx + 1, x |-> Shown(bs)], f)>>)
     /\ UNCHANGED <<procs, wires, phase>>

\* Take a tuple or a sequence apart.
CanSplit(p, k) == LET ty == Kind(p, k) IN ty.sp /\ slots[p][k].v.n <= 1 /\ \A t \in Range(Parts(TypeOf(slots[p][k].y), slots[p][k].v)) : TopOf[t] # 0
DSplit ==
  \E p \in Pick(Running) : \E k \in Pick({k \in Keys(p) : CanSplit(p, k)}) :
  LET ps == Parts(TypeOf(slots[p][k].y), slots[p][k].v)
      bs == TLCEval([i \in DOMAIN ps |-> [y |-> TopOf[ps[i]], v |-> slots[p][k].v.c[i]]])
      f == TLCEval(WithNew(Without(slots[p], {k}), bs))
  IN /\ Do(p, f)
     /\ nx' = nx + Len(bs)
     /\ Log(<<Ev(p, "split", [slot |-> k, dst |-> Fresh(bs), x |-> Shown(bs)], f)>>)
     /\ UNCHANGED <<procs, wires, phase>>

Callable(p) == {k \in Keys(p) : Kind(p, k).k \in {"clo", "fn"}}
DCall ==
  \E p \in Pick(Running) : \E k \in Pick(Callable(p)) :
  LET t == TypeOf(slots[p][k].y)
      ty == Types[t]
      v == slots[p][k].v
      fn == ty.k = "fn"
      able == IF fn \/ ty.w = 2 THEN {"ref", "mut"} ELSE IF ty.w = 1 THEN {"mut"} ELSE {}
  IN \E mode \in Pick(IF able = {} \/ RandomElement(1..5) = 1 THEN {"once"} ELSE able), seed \in {RandomElement(1..100000)} :
     LET args == [i \in 1..ty.r |-> (seed * (i + 3)) % 997]
         f == IF mode = "once" THEN Without(slots[p], {k}) ELSE [slots[p] EXCEPT ![k].v = After(t, v, args)]
     IN /\ Do(p, f)
        /\ Log(<<Ev(p, "call", [slot |-> k, mode |-> mode, args |-> args, r |-> Returns(t, v, args)], f)>>)
        /\ UNCHANGED <<procs, wires, nx, phase>>

DLook ==
  \E p \in Pick(Running) : \E ks \in Some(Keys(p), 1, 5) :
  /\ Log(<<Ev(p, "look", [src |-> ks, x |-> Shown(At(p, ks))], slots[p])>>)
  /\ UNCHANGED <<procs, slots, wires, nx, phase>>

DDrop ==
  \E p \in Pick({p \in Running : Cardinality(Keys(p)) > 1}) : \E ks \in Some(Keys(p), 1, 3) :
  LET f == TLCEval(Without(slots[p], Range(ks)))
  IN /\ Do(p, f)
     /\ Log(<<Ev(p, "drop", [src |-> ks], f)>>)
     /\ UNCHANGED <<procs, wires, nx, phase>>

Init == /\ procs = <<[up |-> 0, on |-> TRUE, res |-> << >>]>> /\ slots = <<<< >>>> /\ wires = <<[up |-> << >>, down |-> << >>]>>
        /\ nx = 0 /\ hist = << >> /\ phase = "run"

Go == phase = "run" /\ Len(hist) < Profile.steps
Quiet == Running = {1} /\ \A q \in 2..Len(procs) : procs[q].up = 0
Drain == phase = "run" /\ Len(hist) >= Profile.steps /\ phase' = "drain" /\ UNCHANGED <<procs, slots, wires, nx, hist>>
Finish == /\ phase = "drain" /\ Quiet
          /\ PrintT("SCENARIO " \o ToJson(hist))
          /\ phase' = "end"
          /\ UNCHANGED <<procs, slots, wires, nx, hist>>
Next ==
  \/ \E w \in 1..Wt("build") : Go /\ DBuild
  \/ \E w \in 1..Wt("direct") : Go /\ DDirect
  \/ \E w \in 1..Wt("spawn") : Go /\ DSpawn
  \/ \E w \in 1..Wt("send") : Go /\ DSend
  \/ \E w \in 1..Wt("apply") : Go /\ DApply
  \/ \E w \in 1..Wt("undelay") : Go /\ DUndelay
  \/ \E w \in 1..Wt("split") : Go /\ DSplit
  \/ \E w \in 1..Wt("call") : Go /\ DCall
  \/ \E w \in 1..Wt("look") : Go /\ DLook
  \/ \E w \in 1..Wt("drop") : Go /\ DDrop
  \/ \E w \in 1..4 : phase \in {"run", "drain"} /\ DRecv
  \/ phase \in {"run", "drain"} /\ DJoin
  \/ phase = "drain" /\ DReturn
  \/ Go /\ RandomElement(1..3) = 1 /\ DReturn
  \/ Drain
  \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
