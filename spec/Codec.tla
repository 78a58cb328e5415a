------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* What crossmist does to values: a value of some type is written as a     *)
(* sequence of words and a sequence of handles, and read back following    *)
(* the same type.                                                          *)
(*                                                                         *)
(* Types form a table that refers to itself by index, so that types may be *)
(* recursive.  A type is a record with its kind k, and a, the types of its *)
(* parts (per alternative):                                                *)
(*   leaf     one of n values that are copied as they are                  *)
(*   tuple    parts in the order in which they are written                 *)
(*   sum      one of several alternatives                                  *)
(*   seq      any number of parts;  set, bag: the same, in no order        *)
(*   map      any number of pairs, in no order                             *)
(*   rc       a shared object                                              *)
(*   handle   an open file                                                 *)
(*   delayed  a value that is written as a session on its own, and read    *)
(*            only when asked for                                          *)
(*   fn       a function pointer, r arguments                              *)
(*   clo      a function with some leading arguments bound, r more to come *)
(*                                                                         *)
(* A value is a term: a number n and parts c.  For rc the number is the    *)
(* identity of the object, and all terms with this number are the same     *)
(* object.  For handle it is the file.  For seq it tells how many times    *)
(* the parts are repeated.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Types,
          PostOrder   \* weakening: the reader numbers shared objects when they are complete

T(n, c) == [n |-> n, c |-> c]
Bare(xs) == [i \in DOMAIN xs |-> T(xs[i], << >>)]
Nums(ts) == [i \in DOMAIN ts |-> ts[i].n]

\* Numbers of the arguments that are bound in a closure and can be changed by calls.
Mutable(kinds) == {j \in DOMAIN kinds : kinds[j] = "m"}

(***************************************************************************)
(* Writing.  A session has words w, handles h, and the identities ids of   *)
(* the shared objects seen so far: an object's number is its position.     *)
(***************************************************************************)
NoSession == [w |-> << >>, h |-> << >>, ids |-> << >>]
Put(s, ws) == TLCEval([s EXCEPT !.w = @ \o ws])

RECURSIVE Enc(_, _, _), EncAll(_, _, _, _)
EncAll(ts, vs, s, i) == IF i > Len(vs) THEN s ELSE EncAll(ts, vs, TLCEval(Enc(ts[i], vs[i], s)), i + 1)

Parts(t, v) ==
  LET ty == Types[t]
  IN CASE ty.k = "tuple" -> ty.a[1]
       [] ty.k = "sum" -> ty.a[v.n + 1]
       [] ty.k \in {"seq", "set", "bag"} -> [i \in DOMAIN v.c |-> ty.a[1][1]]
       [] ty.k \in {"rc", "delayed"} -> ty.a[1]
       [] OTHER -> << >>

RECURSIVE EncPairs(_, _, _, _)
EncPairs(kv, vs, s, i) == IF i > Len(vs) THEN s ELSE EncPairs(kv, vs, TLCEval(EncAll(kv, vs[i].c, s, 1)), i + 1)

Enc(t, v, s) ==
  LET ty == Types[t]
  IN CASE ty.k \in {"leaf", "fn"} -> Put(s, <<v.n>>)
       [] ty.k = "tuple" -> EncAll(Parts(t, v), v.c, s, 1)
       [] ty.k = "sum" -> EncAll(Parts(t, v), v.c, Put(s, <<v.n>>), 1)
       [] ty.k \in {"seq", "set", "bag"} -> EncAll(Parts(t, v), v.c, Put(s, <<v.n, Len(v.c)>>), 1)
       [] ty.k = "map" -> EncPairs(ty.a[1], v.c, Put(s, <<Len(v.c)>>), 1)
       [] ty.k = "handle" -> [s EXCEPT !.h = Append(@, v.n)]
       [] ty.k = "rc" ->
            LET known == {i \in DOMAIN s.ids : s.ids[i] = v.n}
            IN IF known # {} THEN Put(s, <<CHOOSE i \in known : TRUE>>)
               ELSE Enc(ty.a[1][1], v.c[1], [Put(s, <<0>>) EXCEPT !.ids = Append(@, v.n)])
       [] ty.k = "delayed" ->
            \* Written only before it was read.
            LET sub == TLCEval(Enc(ty.a[1][1], v.c[1], NoSession))
            IN [Put(s, <<Len(sub.h), Len(sub.w)>> \o sub.w) EXCEPT !.h = @ \o sub.h]
       [] ty.k = "clo" -> Put(s, <<v.n>> \o Nums(v.c))

(***************************************************************************)
(* Reading.  p and q: words and handles taken; objs: the shared objects    *)
(* built so far (a term without parts while incomplete).  New objects get  *)
(* identities above base.                                                  *)
(***************************************************************************)
Reader(w, h, base) == [w |-> w, h |-> h, p |-> 0, q |-> 0, objs |-> << >>, base |-> base]
Word(r, i) == r.w[r.p + i]
Skip(r, n) == [r EXCEPT !.p = @ + n]
Ok(v, r) == [v |-> v, r |-> r]

RECURSIVE Dec(_, _), DecAll(_, _, _), DecPairs(_, _, _, _)
DecAll(ts, r, acc) ==
  IF Len(acc) = Len(ts) THEN Ok(acc, r)
  ELSE LET x == TLCEval(Dec(ts[Len(acc) + 1], r)) IN DecAll(ts, x.r, TLCEval(Append(acc, x.v)))

DecPairs(kv, n, r, acc) ==
  IF n = 0 THEN Ok(acc, r)
  ELSE LET x == TLCEval(DecAll(kv, r, << >>)) IN DecPairs(kv, n - 1, x.r, TLCEval(Append(acc, T(0, x.v))))

Wrap(n, x) == LET y == TLCEval(x) IN Ok(T(n, y.v), y.r)

Dec(t, r) ==
  LET ty == Types[t]
  IN CASE ty.k \in {"leaf", "fn"} -> Ok(T(Word(r, 1), << >>), Skip(r, 1))
       [] ty.k = "tuple" -> Wrap(0, DecAll(ty.a[1], r, << >>))
       [] ty.k = "sum" -> Wrap(Word(r, 1), DecAll(ty.a[Word(r, 1) + 1], Skip(r, 1), << >>))
       [] ty.k \in {"seq", "set", "bag"} ->
            Wrap(Word(r, 1), DecAll([i \in 1..Word(r, 2) |-> ty.a[1][1]], Skip(r, 2), << >>))
       [] ty.k = "map" -> Wrap(0, DecPairs(ty.a[1], Word(r, 1), Skip(r, 1), << >>))
       [] ty.k = "handle" -> Ok(T(r.h[r.q + 1], << >>), [r EXCEPT !.q = @ + 1])
       [] ty.k = "rc" ->
            IF Word(r, 1) # 0
            THEN Ok(IF Word(r, 1) \in DOMAIN r.objs THEN r.objs[Word(r, 1)] ELSE T(-1, << >>), Skip(r, 1))
            ELSE IF PostOrder
            THEN LET x == TLCEval(Dec(ty.a[1][1], Skip(r, 1)))
                     o == T(r.base + Len(x.r.objs) + 1, <<x.v>>)
                 IN Ok(o, [x.r EXCEPT !.objs = Append(@, o)])
            ELSE LET i == Len(r.objs) + 1
                     x == TLCEval(Dec(ty.a[1][1], [Skip(r, 1) EXCEPT !.objs = Append(@, T(r.base + i, << >>))]))
                     o == TLCEval(T(r.base + i, <<x.v>>))
                 IN Ok(o, [x.r EXCEPT !.objs[i] = o])
       [] ty.k = "delayed" ->
            \* Stays as it came until it is asked for.
            LET nh == Word(r, 1)
                nw == Word(r, 2)
            IN Ok(T(1, <<T(0, Bare(SubSeq(r.w, r.p + 3, r.p + 2 + nw))), T(0, Bare(SubSeq(r.h, r.q + 1, r.q + nh)))>>),
                  [Skip(r, 2 + nw) EXCEPT !.q = @ + nh])
       [] ty.k = "clo" ->
            LET n == Len(ty.s[Word(r, 1) + 1])
            IN Ok(T(Word(r, 1), Bare(SubSeq(r.w, r.p + 2, r.p + 1 + n))), Skip(r, 1 + n))

AllRead(r) == r.p = Len(r.w) /\ r.q = Len(r.h)

(***************************************************************************)
(* Several values in one session, as they are sent.                        *)
(***************************************************************************)
Pack(ts, vs) == EncAll(ts, vs, NoSession, 1)
Unpack(ts, w, h, base) == DecAll(ts, Reader(w, h, base), << >>)

\* A delayed value that was received.
Undelay(t, v, base) == Unpack(Types[t].a[1], Nums(v.c[1].c), Nums(v.c[2].c), base)

(***************************************************************************)
(* Whether two lists of values are the same, up to a renaming of shared    *)
(* objects.                                                                *)
(***************************************************************************)
RECURSIVE Matches(_, _, _, _), MatchAll(_, _, _, _, _)
\* m: identities paired so far, or FALSE in a sequence of length one
MatchAll(ts, xs, ys, m, i) ==
  IF i > Len(xs) \/ ~m.ok THEN m ELSE MatchAll(ts, xs, ys, TLCEval(Matches(ts[i], xs[i], ys[i], m)), i + 1)

Bad == [ok |-> FALSE, f |-> {}]
RECURSIVE MatchPairs(_, _, _, _, _)
MatchPairs(kv, xs, ys, m, i) ==
  IF i > Len(xs) \/ ~m.ok THEN m ELSE MatchPairs(kv, xs, ys, MatchAll(kv, xs[i].c, ys[i].c, m, 1), i + 1)

Matches(t, x, y, m) ==
  LET ty == Types[t]
  IN CASE ty.k \in {"leaf", "fn", "handle", "clo"} -> IF x = y THEN m ELSE Bad
       [] ty.k = "rc" ->
            LET px == {e \in m.f : e[1] = x.n}
                py == {e \in m.f : e[2] = y.n}
            IN IF px = {} /\ py = {}
               THEN IF Len(y.c) = 1 THEN Matches(ty.a[1][1], x.c[1], y.c[1], [m EXCEPT !.f = @ \cup {<<x.n, y.n>>}]) ELSE Bad
               ELSE IF px = py THEN m ELSE Bad
       [] ty.k = "delayed" ->
            \* x was not read yet, y came.
            LET z == Undelay(t, y, 0)
                e == MatchAll(ty.a[1], x.c, z.v, [ok |-> TRUE, f |-> {}], 1)
            IN IF y.n = 1 /\ AllRead(z.r) /\ e.ok THEN m ELSE Bad
       [] ty.k = "map" -> IF Len(x.c) = Len(y.c) THEN MatchPairs(ty.a[1], x.c, y.c, m, 1) ELSE Bad
       [] OTHER -> IF x.n = y.n /\ Len(x.c) = Len(y.c) THEN MatchAll(Parts(t, x), x.c, y.c, m, 1) ELSE Bad

Same(ts, xs, ys) == MatchAll(ts, xs, ys, [ok |-> TRUE, f |-> {}], 1).ok

(***************************************************************************)
(* Number of descriptors that belong to values: one for every handle, but  *)
(* only one for those in an object with several pointers to it.            *)
(***************************************************************************)
RECURSIVE Count(_, _, _), CountAll(_, _, _, _)
\* The result and the objects seen.
CountAll(ts, vs, a, i) == IF i > Len(vs) THEN a ELSE CountAll(ts, vs, TLCEval(Count(ts[i], vs[i], a)), i + 1)
RECURSIVE CountPairs(_, _, _, _)
CountPairs(kv, vs, a, i) == IF i > Len(vs) THEN a ELSE CountPairs(kv, vs, CountAll(kv, vs[i].c, a, 1), i + 1)
Count(t, v, a) ==
  LET ty == Types[t]
  IN CASE ty.f -> a      \* nothing of interest can be in there
       [] ty.k = "handle" -> [a EXCEPT !.n = @ + 1]
       [] ty.k = "rc" -> IF v.n \in a.seen THEN a ELSE Count(ty.a[1][1], v.c[1], [a EXCEPT !.seen = @ \cup {v.n}])
       [] ty.k = "delayed" -> IF v.n = 1 THEN [a EXCEPT !.n = @ + Len(v.c[2].c)]
                              ELSE [n |-> a.n + Count(ty.a[1][1], v.c[1], [n |-> 0, seen |-> {}]).n, seen |-> a.seen]
       [] ty.k = "map" -> CountPairs(ty.a[1], v.c, a, 1)
       [] OTHER -> CountAll(Parts(t, v), v.c, a, 1)
Handles(ts, vs) == CountAll(ts, vs, [n |-> 0, seen |-> {}], 1).n

(***************************************************************************)
(* Calling.  The arguments bound come first, those given next; every bound *)
(* argument that can be changed is changed by the call.                    *)
(***************************************************************************)
Step(x, args) == (2 * x + 1 + FoldLeft(LAMBDA a, b : a + b, 0, args)) % 1009
Returns(t, v, args) ==
  IF Types[t].k = "fn" THEN <<v.n>> \o args ELSE <<Types[t].ids[v.n + 1]>> \o Nums(v.c) \o args
After(t, v, args) ==
  IF Types[t].k = "fn" THEN v
  ELSE LET ks == Types[t].s[v.n + 1]
       IN T(v.n, [j \in DOMAIN v.c |-> IF j \in Mutable(ks) THEN T(Step(v.c[j].n, args), << >>) ELSE v.c[j]])
=============================================================================
