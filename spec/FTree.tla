---------------------------------- MODULE FTree ----------------------------------
(* Tree<T>: ordered trees with cursors.  A node is a place (which cursors refer to   *)
(* and which has a trunk) holding contents (a value and the branches).  m is the set *)
(* of saved cursors that sit on the place.  A tree is "none" (never initialised,     *)
(* cleared, or given away), "gone" (its root was moved out: only to be replaced) or   *)
(* "ok".                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NTrees, NSlots, Values, MaxSize
Trees == 1..NTrees
Slots == 1..NSlots
N(v) == [v |-> v, c |-> <<>>, m |-> {}]
NoTree == [st |-> "none", n |-> N(0)]
Tr(n) == [st |-> "ok", n |-> n]
S0 == [t |-> [i \in Trees |-> NoTree], r |-> <<>>]
Op(o, t, u, p, q, i, v) == [o |-> o, t |-> t, u |-> u, p |-> p, q |-> q, i |-> i, v |-> v]

RECURSIVE SizeOf(_), Get(_, _), Put(_, _, _), Paths(_), Unmark(_), Marks(_)
RECURSIVE SumSizes(_, _)
SumSizes(c, i) == IF i > Len(c) THEN 0 ELSE SizeOf(c[i]) + SumSizes(c, i + 1)
SizeOf(n) == 1 + SumSizes(n.c, 1)
Get(n, p) == IF p = <<>> THEN n ELSE Get(n.c[p[1]], Tail(p))
Put(n, p, x) == IF p = <<>> THEN x ELSE [n EXCEPT !.c[p[1]] = Put(@, Tail(p), x)]
Paths(n) == {<<>>} \cup UNION {{<<i>> \o p : p \in Paths(n.c[i])} : i \in 1..Len(n.c)}
Unmark(n) == [n EXCEPT !.m = {}, !.c = [i \in 1..Len(n.c) |-> Unmark(n.c[i])]]
Marks(n) == n.m \cup UNION {Marks(n.c[i]) : i \in 1..Len(n.c)}
RECURSIVE Forget(_, _)
Forget(n, k) == [n EXCEPT !.m = @ \ {k}, !.c = [i \in 1..Len(n.c) |-> Forget(n.c[i], k)]]

InsertAt(c, i, x) == SubSeq(c, 1, i) \o <<x>> \o SubSeq(c, i + 1, Len(c))     \* before position i (0-based)
Without(c, i) == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))              \* the i-th (1-based) removed
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
\* the contents of a place move; cursors on the place itself do not go along
Place(n) == [n EXCEPT !.m = {}]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

AddBranch(s, t, p, i, x) == [s EXCEPT !.t[t].n = Put(@, p, LET n == Get(@, p) IN [n EXCEPT !.c = InsertAt(@, i, x)]),
                                      !.r = p \o <<i + 1>>]
Cut(s, t, p) == [s EXCEPT !.t[t].n = Put(@, Front(p), LET n == Get(@, Front(p)) IN [n EXCEPT !.c = Without(@, Last(p))])]
\* where path p ends up once path q (a sibling or cousin, not above p) has been cut
After(p, q) == IF Prefix(Front(q), p) /\ Len(p) >= Len(q) /\ p[Len(q)] > Last(q)
               THEN [p EXCEPT ![Len(q)] = @ - 1] ELSE p

Step(s, op) ==
  LET n == s.t[op.t].n IN
  CASE op.o = "new"   -> [s EXCEPT !.t[op.t] = Tr(N(op.v)), !.r = <<>>]
    [] op.o = "clear" -> [s EXCEPT !.t[op.t] = NoTree, !.r = <<>>]
    [] op.o = "ef"    -> AddBranch(s, op.t, op.p, 0, N(op.v))
    [] op.o = "eb"    -> AddBranch(s, op.t, op.p, Len(Get(n, op.p).c), N(op.v))
    [] op.o = "em"    -> AddBranch(s, op.t, op.p, op.i, N(op.v))
    [] op.o \in {"graft", "graftm"} ->
         [AddBranch(s, op.t, <<>>, op.i, Place(s.t[op.u].n))
            EXCEPT !.t[op.u] = [NoTree EXCEPT !.st = IF op.o = "graft" THEN "none" ELSE "gone"]]
    [] op.o = "erase" -> [Cut(s, op.t, op.p) EXCEPT !.r = <<>>]
    [] op.o = "prune" -> [s EXCEPT !.t[op.t].n = Put(@, op.p, [Get(@, op.p) EXCEPT !.c = <<>>]), !.r = <<>>]
    [] op.o = "swapn" ->
         LET a == Get(n, op.p) b == Get(s.t[op.u].n, op.q)
             s1 == [s EXCEPT !.t[op.t].n = Put(@, op.p, [a EXCEPT !.v = b.v, !.c = b.c])]
         IN [s1 EXCEPT !.t[op.u].n = Put(@, op.q, [b EXCEPT !.v = a.v, !.c = a.c]), !.r = <<>>]
    [] op.o = "swapt" -> [s EXCEPT !.t[op.t] = s.t[op.u], !.t[op.u] = s.t[op.t], !.r = <<>>]
    [] op.o \in {"move", "mctor"} ->
         IF op.t = op.u THEN [s EXCEPT !.r = <<>>]
         ELSE [s EXCEPT !.t[op.t] = s.t[op.u], !.t[op.u] = NoTree, !.r = <<>>]
    [] op.o = "xfer"  ->      \* move a branch to the end of another node's branches
         LET x == Place(Get(s.t[op.u].n, op.q))
             s1 == AddBranch(s, op.t, op.p, Len(Get(n, op.p).c), x)
             s2 == Cut(s1, op.u, op.q)
         IN [s2 EXCEPT !.r = IF op.t = op.u THEN After(s1.r, op.q) ELSE s1.r]
    [] op.o = "save"  -> LET s1 == [s EXCEPT !.t = [i \in Trees |-> [s.t[i] EXCEPT !.n = Forget(@, op.v)]]]
                         IN [s1 EXCEPT !.t[op.t].n = Put(@, op.p, [Get(@, op.p) EXCEPT !.m = @ \cup {op.v}]), !.r = <<>>]

Good(s) == {i \in Trees : s.t[i].st = "ok"}
Room(s, i, k) == SizeOf(s.t[i].n) + k <= MaxSize
Ops(s) == UNION {
  {Op("new", i, 0, <<>>, <<>>, 0, v) : i \in Trees, v \in Values},
  {Op("clear", i, 0, <<>>, <<>>, 0, 0) : i \in Trees},
  UNION {UNION {
    {Op("ef", i, 0, p, <<>>, 0, v) : v \in Values} \cup {Op("eb", i, 0, p, <<>>, 0, v) : v \in Values}
    \cup {Op("em", i, 0, p, <<>>, k, v) : k \in 0..Len(Get(s.t[i].n, p).c), v \in Values}
    : p \in Paths(s.t[i].n)} : i \in {j \in Good(s) : Room(s, j, 1)}},
  UNION {UNION {
    {Op("graft", i, j, <<>>, <<>>, k, 0) : k \in 0..Len(s.t[i].n.c)}
    \cup {Op("graftm", i, j, <<>>, <<>>, k, 0) : k \in 0..Len(s.t[i].n.c)}
    : j \in {x \in Good(s) \ {i} : Room(s, i, SizeOf(s.t[x].n))}} : i \in Good(s)},
  UNION {{Op("erase", i, 0, p, <<>>, 0, 0) : p \in Paths(s.t[i].n) \ {<<>>}} : i \in Good(s)},
  UNION {{Op("prune", i, 0, p, <<>>, 0, 0) : p \in Paths(s.t[i].n)} : i \in Good(s)},
  UNION {UNION {{Op("save", i, 0, p, <<>>, 0, k) : k \in Slots} : p \in Paths(s.t[i].n)} : i \in Good(s)},
  UNION {{Op("swapn", x[1], x[2], p, q, 0, 0) : p \in Paths(s.t[x[1]].n), q \in Paths(s.t[x[2]].n)} : x \in Good(s) \X Good(s)},
  UNION {{Op("xfer", x[1], x[2], p, q, 0, 0) : p \in Paths(s.t[x[1]].n), q \in Paths(s.t[x[2]].n) \ {<<>>}} : x \in Good(s) \X Good(s)},
  {Op("swapt", i, j, <<>>, <<>>, 0, 0) : i \in Trees, j \in Trees},
  {Op("move", i, j, <<>>, <<>>, 0, 0) : i \in Trees, j \in {x \in Trees : s.t[x].st # "gone"}},
  {Op("mctor", i, j, <<>>, <<>>, 0, 0) : i \in Trees, j \in {x \in Trees : s.t[x].st # "gone"}} }
Legal(s, op) ==
  CASE op.o = "swapn" -> op.t # op.u \/ op.p = op.q \/ (~Prefix(op.p, op.q) /\ ~Prefix(op.q, op.p))
    [] op.o = "xfer"  -> /\ op.t # op.u => Room(s, op.t, SizeOf(Get(s.t[op.u].n, op.q)))
                         /\ op.t = op.u => ~Prefix(op.q, op.p)
    [] op.o = "mctor" -> op.t # op.u
    [] OTHER -> TRUE

RECURSIVE SameNode(_, _, _)
\* f: trunk/siblings/branches seen by a cursor; l: the links up, across and down agree with the structure
SameNode(n, o, f) ==
  /\ o.v = n.v /\ o.z = SizeOf(n) /\ o.b = Len(n.c) /\ o.l
  /\ o.f = [root |-> f.root, up |-> ~f.root, prev |-> f.i > 1, next |-> f.i < f.n, down |-> n.c # <<>>, leaf |-> n.c = <<>>,
            fork |-> n.c # <<>>]
  /\ Len(o.c) = Len(n.c)
  /\ \A i \in 1..Len(n.c) : SameNode(n.c[i], o.c[i], [root |-> FALSE, i |-> i, n |-> Len(n.c)])
Root == [root |-> TRUE, i |-> 1, n |-> 1]
Valid(s, k) == \E i \in Trees : k \in Marks(s.t[i].n)
At(s, k) == LET i == CHOOSE j \in Trees : k \in Marks(s.t[j].n)
            IN <<i>> \o (CHOOSE p \in Paths(s.t[i].n) : k \in Get(s.t[i].n, p).m)
Same(s, o) ==
  /\ \A i \in Trees : CASE s.t[i].st = "ok"   -> /\ o.t[i].init /\ ~o.t[i].empty /\ o.t[i].size = SizeOf(s.t[i].n)
                                                 /\ SameNode(s.t[i].n, o.t[i].root, Root)
                        [] s.t[i].st = "none" -> /\ ~o.t[i].init /\ o.t[i].empty /\ o.t[i].size = 0
                        [] OTHER -> TRUE
  /\ \A k \in Slots : Valid(s, k) => o.k[k] = At(s, k)
  /\ o.r = s.r

MarkOnce(s) == \A k \in Slots :
  Cardinality(UNION {{<<i, p>> : p \in {q \in Paths(s.t[i].n) : k \in Get(s.t[i].n, q).m}} : i \in Trees}) <= 1
Total(s) == LET z(i) == IF s.t[i].st = "ok" THEN SizeOf(s.t[i].n) ELSE 0 IN z(1) + (IF NTrees > 1 THEN z(2) ELSE 0)
\* moving and exchanging neither creates nor loses nodes
StepOK(s, op, t) == /\ op.o \in {"graft", "graftm", "swapn", "swapt", "xfer", "save"} => Total(t) = Total(s)
                    /\ op.o \in {"ef", "eb", "em"} => Total(t) = Total(s) + 1
                    /\ op.o \in {"swapn"} => \A k \in Slots : Valid(s, k) = Valid(t, k) \/ op.p # op.q
Core(s) == s.t
=================================================================================
