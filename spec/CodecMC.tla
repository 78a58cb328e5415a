------------------------------ MODULE CodecMC ------------------------------
(***************************************************************************)
(* Writing and reading are inverse to each other, for all small values of  *)
(* a selection of types, and all acyclic arrangements of a few shared      *)
(* objects, of two kinds, including several values in a session.           *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

CONSTANTS N,       \* shared objects
          Roots,   \* pointers in the value itself
          What     \* "values" or "graphs" or "boundary"
PrintIt == "PRINT" \in DOMAIN IOEnv

Ty(k, a) == [k |-> k, a |-> a, f |-> FALSE]
MCTypes == <<
  Ty("leaf", << >>), Ty("handle", << >>), Ty("tuple", <<<<1, 2>>>>), Ty("sum", <<<< >>, <<1>>, <<3>>>>),
  Ty("seq", <<<<4>>>>), Ty("map", <<<<1, 2>>>>), Ty("delayed", <<<<5>>>>), Ty("tuple", <<<<2, 7, 2, 6>>>>),
  Ty("tuple", <<<<10>>>>), Ty("seq", <<<<11>>>>), Ty("sum", <<<<12>>, <<13>>>>), Ty("rc", <<<<9>>>>), Ty("rc", <<<<9>>>>),
  Ty("delayed", <<<<9>>>>), Ty("tuple", <<<<9, 14, 9>>>>) >>
Dag == 9

SeqsOf(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE Vals(_)
RECURSIVE Prod(_)
Prod(ts) == IF ts = << >> THEN {<< >>} ELSE {<<x>> \o r : x \in Vals(Head(ts)), r \in Prod(Tail(ts))}
Vals(t) ==
  LET ty == Types[t]
  IN CASE ty.k = "leaf" -> {T(0, << >>), T(1, << >>)}
       [] ty.k = "handle" -> {T(1, << >>), T(2, << >>)}
       [] ty.k = "tuple" -> {T(0, c) : c \in Prod(ty.a[1])}
       [] ty.k = "sum" -> UNION {{T(i - 1, c) : c \in Prod(ty.a[i])} : i \in DOMAIN ty.a}
       [] ty.k = "seq" -> {T(1, c) : c \in SeqsOf(Vals(ty.a[1][1]), 2)}
       [] ty.k = "map" -> {T(0, c) : c \in {d \in SeqsOf({T(0, p) : p \in Prod(ty.a[1])}, 2) : Len(d) = 2 => d[1].c[1] # d[2].c[1]}}
       [] ty.k = "delayed" -> {T(0, <<x>>) : x \in Vals(ty.a[1][1])}

\* Object i has pointers to objects before it; each is always held through the same kind of pointer.
RECURSIVE Graph(_, _, _)
Edge(g, k, d) == T(g.kind[k], <<T(k, <<Graph(g, k, d)>>)>>)
Graph(g, i, d) == T(0, <<T(1, [j \in DOMAIN g.kids[i] |-> Edge(g, g.kids[i][j], d)])>>)
RootOf(g, root) == T(0, <<T(1, [j \in DOMAIN root |-> Edge(g, root[j], 0)])>>)
RECURSIVE KidLists(_)
KidLists(n) == IF n = 0 THEN {<< >>} ELSE {Append(r, k) : r \in KidLists(n - 1), k \in SeqsOf(1..(n - 1), 2)}
Graphs == [kids : KidLists(N), kind : [1..N -> {0, 1}]]
RootsOf == SeqsOf(1..N, Roots)

VARIABLE x
Init == x \in CASE What = "values" -> UNION {[ts : {<<t, t>>}, vs : Vals(t) \X Vals(t)] : t \in 3..7} \cup [ts : {<<8>>}, vs : {<<v>> : v \in Vals(8)}]
               [] What = "graphs" -> {[ts |-> <<Dag>>, vs |-> <<RootOf(g, r)>>] : g \in Graphs, r \in RootsOf}
               \* around and inside a delayed value: its contents are a session on their own
               [] What = "boundary" -> {[ts |-> <<15>>, vs |-> <<T(0, <<RootOf(g, r), T(0, <<RootOf(g, q)>>), RootOf(g, r)>>)>>] :
                                        g \in Graphs, r \in RootsOf, q \in RootsOf}
Next == UNCHANGED x

Result == LET s == Pack(x.ts, x.vs) IN Unpack(x.ts, s.w, s.h, 100)
RoundTrip == LET r == Result IN AllRead(r.r) /\ Same(x.ts, x.vs, r.v)
Emit == PrintIt => PrintT("SCENARIO " \o ToJson([v |-> x.vs, x |-> Result.v]))
=============================================================================
