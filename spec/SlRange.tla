-------------------------------- MODULE SlRange ---------------------------------
(* SL_Range, SL_Const_Range, SL_Range_Iterator: contiguous ranges of a list and     *)
(* their extension by adjacent ranges.  The list has N elements; a range is bad     *)
(* (default constructed or cleared) or covers positions b..b+n-1.                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, NRanges
R == 1..NRanges
BadR == [bad |-> TRUE, b |-> 0, n |-> 0]
Rng(b, n) == [bad |-> FALSE, b |-> b, n |-> n]
S0 == [x |-> [i \in R |-> BadR], r |-> 0]
Op(o, l, m, p, q, v) == [o |-> o, l |-> l, m |-> m, p |-> p, q |-> q, v |-> v]
Empty(a) == a.bad \/ a.n = 0
\* a push of range y onto range x is allowed when they touch, or share that side already
PF(x, y) == Empty(y) \/ Empty(x) \/ y.b = x.b \/ y.b + y.n = x.b
PB(x, y) == Empty(y) \/ Empty(x) \/ y.b + y.n = x.b + x.n \/ x.b + x.n = y.b
Step(s, op) ==
  LET x == s.x[op.l] IN
  CASE op.o = "make"  -> [s EXCEPT !.x[op.l] = Rng(op.p, op.q - op.p)]
    [] op.o = "only"  -> [s EXCEPT !.x[op.l] = Rng(op.p, 1)]
    [] op.o = "all"   -> [s EXCEPT !.x[op.l] = Rng(0, N)]
    [] op.o = "bad"   -> [s EXCEPT !.x[op.l] = BadR]
    [] op.o = "clear" -> [s EXCEPT !.x[op.l] = BadR]
    [] op.o = "clrat" -> [s EXCEPT !.x[op.l] = Rng(op.p, 0)]
    [] op.o = "asgn"  -> [s EXCEPT !.x[op.l] = s.x[op.m]]
    [] op.o = "pushf" -> LET y == s.x[op.m] IN
                         IF Empty(y) \/ (~Empty(x) /\ y.b = x.b) THEN s
                         ELSE IF Empty(x) THEN [s EXCEPT !.x[op.l] = y]
                         ELSE [s EXCEPT !.x[op.l] = Rng(y.b, x.n + y.n)]
    [] op.o = "pushb" -> LET y == s.x[op.m] IN
                         IF Empty(y) \/ (~Empty(x) /\ y.b + y.n = x.b + x.n) THEN s
                         ELSE IF Empty(x) THEN [s EXCEPT !.x[op.l] = y]
                         ELSE [s EXCEPT !.x[op.l] = Rng(x.b, x.n + y.n)]
Ops(s) == UNION {
  {Op("make", i, 0, p, q, 0) : i \in R, p \in 0..N, q \in 0..N} \ {Op("make", i, 0, p, q, 0) : i \in R, p \in 1..N, q \in 0..0},
  {Op("only", i, 0, p, 0, 0) : i \in R, p \in 0..(N - 1)},
  {Op("all", i, 0, 0, 0, 0) : i \in R}, {Op("bad", i, 0, 0, 0, 0) : i \in R}, {Op("clear", i, 0, 0, 0, 0) : i \in R},
  {Op("clrat", i, 0, p, 0, 0) : i \in R, p \in 0..N},
  {Op("asgn", i, j, 0, 0, 0) : i \in R, j \in R},
  {Op("pushf", i, j, 0, 0, 0) : i \in R, j \in R}, {Op("pushb", i, j, 0, 0, 0) : i \in R, j \in R} }
Legal(s, op) == CASE op.o = "make" -> op.p <= op.q
                  [] op.o = "pushf" -> PF(s.x[op.l], s.x[op.m])
                  [] op.o = "pushb" -> PB(s.x[op.l], s.x[op.m])
                  [] OTHER -> TRUE
Shown(a) == [e |-> Empty(a), n |-> a.n,
             i |-> [j \in 1..a.n |-> a.b + j - 1],        \* elements by iterating
             b |-> IF a.bad THEN -1 ELSE a.b,
             d |-> IF a.bad THEN -1 ELSE a.b + a.n,
             f |-> IF Empty(a) THEN -1 ELSE a.b, t |-> IF Empty(a) THEN -1 ELSE a.b + a.n - 1]
Same(s, o) == /\ \A i \in R : o.x[i] = Shown(s.x[i])
              /\ \A i \in R : ~s.x[i].bad => o.c[i] = Shown(s.x[i])     \* through rebase onto a copy, const range, range iterator
              /\ \A i, j \in R : o.q[i][j] = (\/ (s.x[i].bad /\ s.x[j].bad)
                                              \/ (~s.x[i].bad /\ ~s.x[j].bad /\ s.x[i] = s.x[j]))
InList(s) == \A i \in R : s.x[i].b >= 0 /\ s.x[i].b + s.x[i].n <= N
StepOK(s, op, t) == op.o \in {"pushf", "pushb"} =>
  LET C(a) == IF a.bad THEN {} ELSE a.b..(a.b + a.n - 1) IN
  \/ C(t.x[op.l]) = C(s.x[op.l]) \cup C(s.x[op.m])
  \/ (op.o = "pushf" /\ s.x[op.l].b = s.x[op.m].b /\ t = s)
  \/ (op.o = "pushb" /\ s.x[op.l].b + s.x[op.l].n = s.x[op.m].b + s.x[op.m].n /\ t = s)
Core(s) == s.x
=================================================================================
