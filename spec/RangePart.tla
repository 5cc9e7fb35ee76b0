-------------------------------- MODULE RangePart --------------------------------
(* Range_Partition: consecutive statements divided among numbered regions.  Regions  *)
(* are first filled in order (append); then the partition is queried and statements   *)
(* are inserted in the underlying list at positions found through a region, and the   *)
(* region is told.  Elements are numbered in order of creation.                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NReg, MaxLen, MaxIns
Regs == 1..NReg
S0 == [p |-> [i \in Regs |-> <<>>], last |-> 0, fill |-> TRUE, next |-> 1, r |-> <<>>]
Op(o, i, k, n) == [o |-> o, i |-> i, k |-> k, n |-> n]
New(s, n) == [j \in 1..n |-> s.next + j - 1]
Step(s, op) ==
  CASE op.o = "append" -> [s EXCEPT !.p[op.i] = @ \o New(s, op.n), !.next = @ + op.n,
                                    !.last = IF op.n = 0 THEN @ ELSE op.i, !.r = <<>>]
    [] op.o = "range"  -> [s EXCEPT !.fill = FALSE, !.r = s.p[op.i]]
    [] op.o = "insert" -> [s EXCEPT !.fill = FALSE, !.next = @ + op.n, !.r = <<>>,
                                    !.p[op.i] = SubSeq(@, 1, op.k) \o New(s, op.n) \o SubSeq(@, op.k + 1, Len(@))]
    [] op.o = "reset"  -> [S0 EXCEPT !.next = s.next]
Ops(s) == UNION {
  IF s.fill THEN {Op("append", i, 0, n) : i \in {j \in Regs : j >= s.last}, n \in 0..MaxLen} ELSE {},
  \* the partition is queried once it has been filled
  IF s.last > 0 THEN {Op("range", i, 0, 0) : i \in Regs} ELSE {},
  IF s.last > 0 THEN UNION {{Op("insert", i, k, n) : k \in 0..Len(s.p[i]), n \in 1..MaxIns} : i \in Regs} ELSE {},
  {Op("reset", 1, 0, 0)} }
RECURSIVE Total(_, _)
Total(p, i) == IF i > NReg THEN <<>> ELSE p[i] \o Total(p, i + 1)
Legal(s, op) == op.o = "append" => Len(s.p[op.i]) + op.n <= MaxLen
Same(s, o) == /\ o.p = [i \in Regs |-> [e |-> s.p[i] = <<>>, c |-> s.p[i]]]
              /\ s.last > 0 => o.all = Total(s.p, 1)
              /\ o.r = s.r
NoLoss(s) == Len(Total(s.p, 1)) <= s.next - 1
StepOK(s, op, t) == op.o = "insert" => /\ Len(Total(t.p, 1)) = Len(Total(s.p, 1)) + op.n
                                       /\ \A i \in Regs \ {op.i} : s.p[i] = t.p[i]
\* element names do not matter to the future
Core(s) == <<[i \in Regs |-> Len(s.p[i])], s.last, s.fill>>
=================================================================================
