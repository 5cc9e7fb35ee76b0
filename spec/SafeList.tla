-------------------------------- MODULE SafeList --------------------------------
(* Safe_List: a list whose iterators - including end() - stay valid until the      *)
(* element they refer to is removed, and may be stored in other structures.        *)
(* A saved iterator is a slot; a node carries the set of slots that refer to it,    *)
(* and a list carries the set of slots that hold its end().  A slot that is in no    *)
(* node and no end is invalid (its element was removed) and must not be used.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NLists, NSlots, Values, MaxLen

Lists == 1..NLists
Slots == 1..NSlots
Node(v) == [v |-> v, m |-> {}]
Fresh == [n |-> <<>>, e |-> {}, ok |-> TRUE]
S0 == [l |-> [i \in Lists |-> Fresh], r |-> 0]

Op(o, l, m, p, q, v) == [o |-> o, l |-> l, m |-> m, p |-> p, q |-> q, v |-> v]

InsertAt(n, p, xs) == SubSeq(n, 1, p) \o xs \o SubSeq(n, p + 1, Len(n))   \* before position p (0-based)
DropFrom(n, p, q)  == SubSeq(n, 1, p) \o SubSeq(n, q + 1, Len(n))        \* positions p..q-1
Keep(n, T(_)) == SelectSeq(n, T)
Unmarked(n) == [i \in 1..Len(n) |-> [n[i] EXCEPT !.m = {}]]

\* forget slot k everywhere
Forget(s, k) == [s EXCEPT !.l = [i \in Lists |->
                   [s.l[i] EXCEPT !.e = @ \ {k},
                                  !.n = [j \in 1..Len(s.l[i].n) |-> [s.l[i].n[j] EXCEPT !.m = @ \ {k}]]]]]

Valid(s, k) == \E i \in Lists : k \in s.l[i].e \/ \E j \in 1..Len(s.l[i].n) : k \in s.l[i].n[j].m
ListOf(s, k) == CHOOSE i \in Lists : k \in s.l[i].e \/ \E j \in 1..Len(s.l[i].n) : k \in s.l[i].n[j].m
PosOf(s, k) == LET i == ListOf(s, k) IN
               IF k \in s.l[i].e THEN Len(s.l[i].n)
               ELSE (CHOOSE j \in 1..Len(s.l[i].n) : k \in s.l[i].n[j].m) - 1

Set(s, i, n, r) == [s EXCEPT !.l[i].n = n, !.r = r]

Step(s, op) ==
  LET n == s.l[op.l].n  v == op.v  p == op.p IN
  CASE op.o = "push"  -> Set(s, op.l, Append(n, Node(v)), 0)
    [] op.o = "eback" -> Set(s, op.l, Append(n, Node(v)), 0)
    [] op.o = "front" -> Set(s, op.l, <<Node(v)>> \o n, 0)
    [] op.o = "pop"   -> Set(s, op.l, SubSeq(n, 1, Len(n) - 1), 0)
    [] op.o \in {"ins", "empl"} -> Set(s, op.l, InsertAt(n, p, <<Node(v)>>), p)
    [] op.o = "insr"  -> Set(s, op.l, InsertAt(n, p, Unmarked(s.l[op.m].n)), p)
    [] op.o = "era"   -> Set(s, op.l, DropFrom(n, p, p + 1), p)
    [] op.o = "erar"  -> Set(s, op.l, DropFrom(n, p, op.q), p)
    [] op.o = "clear" -> [s EXCEPT !.l[op.l] = [n |-> <<>>, ok |-> TRUE, e |-> IF s.l[op.l].ok THEN @.e ELSE {}], !.r = 0]
    [] op.o = "remif" -> Set(s, op.l, Keep(n, LAMBDA x : x.v # v), 0)
    [] op.o = "ctor"  -> [s EXCEPT !.l[op.l] = [Fresh EXCEPT !.n = [i \in 1..p |-> Node(v)]], !.r = 0]
    [] op.o \in {"copy", "cctor"} ->
         IF op.l = op.m THEN [s EXCEPT !.r = 0]
         ELSE [s EXCEPT !.l[op.l] = [Fresh EXCEPT !.n = Unmarked(s.l[op.m].n)], !.r = 0]
    [] op.o \in {"move", "mctor"} ->
         IF op.l = op.m THEN [s EXCEPT !.r = 0]
         ELSE [s EXCEPT !.l[op.l] = s.l[op.m], !.l[op.m] = [Fresh EXCEPT !.ok = FALSE], !.r = 0]
    [] op.o = "save"  -> LET t == Forget(s, v) IN
                         IF p = Len(n) THEN [t EXCEPT !.l[op.l].e = @ \cup {v}, !.r = 0]
                         ELSE [t EXCEPT !.l[op.l].n[p + 1].m = @ \cup {v}, !.r = 0]
    [] op.o = "insat" -> LET i == ListOf(s, p) q == PosOf(s, p)      \* p: the slot
                         IN Set(s, i, InsertAt(s.l[i].n, q, <<Node(v)>>), q)
    [] op.o = "eraat" -> LET i == ListOf(s, p) q == PosOf(s, p)
                         IN Set(s, i, DropFrom(s.l[i].n, q, q + 1), q)

\* a live list, and a list that has been moved from (which may only be given a new value)
Live(s) == {i \in Lists : s.l[i].ok}
Room(s, i, k) == Len(s.l[i].n) + k <= MaxLen

AtPos(s, i, p) == UNION {
  {Op("save", i, 0, p, 0, k) : k \in Slots},
  {Op(o, i, 0, p, 0, v) : o \in (IF Room(s, i, 1) THEN {"ins", "empl"} ELSE {}), v \in Values},
  {Op("insr", i, m, p, 0, 0) : m \in {j \in Live(s) \ {i} : Room(s, i, Len(s.l[j].n))}},
  IF p < Len(s.l[i].n) THEN {Op("era", i, 0, p, 0, 0)} ELSE {},
  {Op("erar", i, 0, p, q, 0) : q \in p..Len(s.l[i].n)} }

Ops(s) ==
  UNION {
    {Op("push", i, 0, 0, 0, v) : i \in {j \in Live(s) : Room(s, j, 1)}, v \in Values},
    {Op("eback", i, 0, 0, 0, v) : i \in {j \in Live(s) : Room(s, j, 1)}, v \in Values},
    {Op("front", i, 0, 0, 0, v) : i \in {j \in Live(s) : Room(s, j, 1)}, v \in Values},
    {Op("pop", i, 0, 0, 0, 0) : i \in {j \in Live(s) : Len(s.l[j].n) > 0}},
    {Op("clear", i, 0, 0, 0, 0) : i \in Lists},
    {Op("remif", i, 0, 0, 0, v) : i \in Live(s), v \in Values},
    {Op("copy", i, m, 0, 0, 0) : i \in Lists, m \in Live(s)},
    {Op("cctor", i, m, 0, 0, 0) : i \in Lists, m \in Live(s)} \ {Op("cctor", i, i, 0, 0, 0) : i \in Lists},
    {Op("move", i, m, 0, 0, 0) : i \in Lists, m \in Live(s)},
    {Op("mctor", i, m, 0, 0, 0) : i \in Lists, m \in Live(s)} \ {Op("mctor", i, i, 0, 0, 0) : i \in Lists},
    {Op("ctor", i, 0, p, 0, v) : i \in Lists, p \in 0..MaxLen, v \in Values},
    UNION {UNION {AtPos(s, i, p) : p \in 0..Len(s.l[i].n)} : i \in Live(s)},
    {Op("insat", 1, 0, k, 0, v) : k \in {j \in Slots : Valid(s, j) /\ Room(s, ListOf(s, j), 1)}, v \in Values},
    {Op("eraat", 1, 0, k, 0, 0) : k \in {j \in Slots : Valid(s, j) /\ PosOf(s, j) < Len(s.l[ListOf(s, j)].n)}} }

Vals(s, i) == [j \in 1..Len(s.l[i].n) |-> s.l[i].n[j].v]
Same(s, o) ==
  /\ \A i \in Lists : s.l[i].ok =>
       LET x == Vals(s, i) y == o.l[i] k == Len(x) IN
       /\ y.f = x /\ y.b = [j \in 1..k |-> x[k + 1 - j]]
       /\ y.s = k /\ y.e = (k = 0)
       /\ y.h = (IF k = 0 THEN -1 ELSE x[1]) /\ y.t = (IF k = 0 THEN -1 ELSE x[k])
  /\ \A k \in Slots : Valid(s, k) => o.k[k] = <<ListOf(s, k), PosOf(s, k)>>
  /\ o.r = s.r
  /\ \A i, j \in Live(s) : o.q[i][j] = (Vals(s, i) = Vals(s, j))

\* properties of the model: a slot refers to one place at most; only removal, assignment or saving again changes a
\* slot's element
SlotOnce(s) == \A k \in Slots :
  Cardinality({<<i, 0>> : i \in {x \in Lists : k \in s.l[x].e}}
              \cup UNION {{<<i, j>> : j \in {y \in 1..Len(s.l[i].n) : k \in s.l[i].n[y].m}} : i \in Lists}) <= 1
StepOK(s, op, t) ==
  /\ op.o \in {"push", "eback", "front", "ins", "empl", "insr", "insat"} =>
       \A k \in Slots : Valid(s, k) => /\ Valid(t, k) /\ ListOf(t, k) = ListOf(s, k)
                                       /\ (k \in s.l[ListOf(s, k)].e) = (k \in t.l[ListOf(t, k)].e)
  \* nothing but assignment or construction invalidates a stored end()
  /\ op.o \notin {"copy", "cctor", "move", "mctor", "ctor", "save"} =>
       \A i \in Live(s) : s.l[i].e = t.l[i].e
  /\ op.o \in {"move", "mctor"} /\ op.l # op.m => t.l[op.l].e = s.l[op.m].e
Core(s) == s.l
=================================================================================
