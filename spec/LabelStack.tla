------------------------------- MODULE LabelStack --------------------------------
(* Label_Stack: the labels on which enclosing labelled DO constructs end.  Several   *)
(* constructs may share one label.  The level of the top entry tells which of them   *)
(* it is: 0 when it is the only one of its run, else its place in the run counted     *)
(* from the outermost.  It is decided when first asked for, so that a run keeps its   *)
(* numbering while the constructs it stands for are closed one by one.              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Labels, MaxDepth
S0 == [st |-> <<>>, r |-> 0]
Op(o, v) == [o |-> o, v |-> v]
Top(st) == st[Len(st)]
\* first index of the run of equal labels that ends at the top
RunStart(st) == CHOOSE i \in 1..Len(st) : /\ \A j \in i..Len(st) : st[j].label = Top(st).label
                                          /\ i = 1 \/ st[i - 1].label # Top(st).label
Decide(st) ==
  LET b == RunStart(st) n == Len(st) - b + 1 IN
  IF Top(st).level # -1 THEN st
  ELSE IF n = 1 THEN [st EXCEPT ![b].level = 0]
  ELSE [i \in 1..Len(st) |-> IF i < b THEN st[i] ELSE [st[i] EXCEPT !.level = i - b + 1]]
Step(s, op) ==
  CASE op.o = "push"  -> [st |-> Append(s.st, [label |-> op.v, level |-> -1]), r |-> 0]
    [] op.o = "pop"   -> [st |-> SubSeq(s.st, 1, Len(s.st) - 1), r |-> 0]
    [] op.o = "level" -> IF s.st = <<>> \/ Top(s.st).label # op.v THEN [s EXCEPT !.r = -1]
                         ELSE LET d == Decide(s.st) IN [st |-> d, r |-> Top(d).level]
Ops(s) == (IF Len(s.st) < MaxDepth THEN {Op("push", v) : v \in Labels} ELSE {})
          \cup (IF s.st # <<>> THEN {Op("pop", 0)} ELSE {}) \cup {Op("level", v) : v \in Labels}
Same(s, o) == /\ o.n = Len(s.st) /\ o.e = (s.st = <<>>) /\ o.r = s.r
              /\ \A v \in Labels : o.t[v] = (s.st # <<>> /\ Top(s.st).label = v)
\* once decided at the top of a run, closing the constructs one by one counts down to 1
StepOK(s, op, t) ==
  /\ op.o = "pop" /\ Len(s.st) > 1 /\ Top(s.st).level > 1 => Top(t.st).level = Top(s.st).level - 1
  /\ op.o = "level" => Len(t.st) = Len(s.st) /\ \A i \in 1..Len(s.st) : t.st[i].label = s.st[i].label
Shape(s) == \A i \in 1..Len(s.st) : s.st[i].level \in -1..Len(s.st)
Core(s) == s.st
=================================================================================
