-------------------------------- MODULE MC_Procs ---------------------------------
(* Explores Procs: every short sequence of edits of every procedure of some programs. *)
EXTENDS Procs, Json, Randomization
CONSTANTS Sources, Depth, Mode, Most
VARIABLES src, pr, es, now, done
Ins == <<"", "use", "import", "implicit", "decl", "assign", "contains">>
InsText == <<"", "use zz", "import zz", "implicit none", "integer :: zz", "zz = 1", "contains">>
InsQ == <<"", "usezz", "importzz", "implicitnone", "integer::zz", "zz=1", "contains">>
Inserts(x) == UNION {{[o |-> "ins", r |-> r - 1, i |-> i, k |-> Ins[r], t |-> InsText[r], q |-> InsQ[r], bp |-> b]
                      : i \in 0..(IF x.c[r] > Most THEN Most ELSE x.c[r]), b \in BOOLEAN} : r \in {q \in 2..7 : q < 7 \/ x.c[7] = 0}}
Repls(x) == {[o |-> "rep", r |-> 5, i |-> i, k |-> "action", t |-> "call zz", q |-> "callzz", bp |-> FALSE] : i \in 0..((IF x.c[6] > Most THEN Most ELSE x.c[6]) - 1)}
Others == {[o |-> "rename", r |-> 0, i |-> 0, k |-> "", t |-> t, q |-> "", bp |-> FALSE] : t \in {"zz", "a_much_longer_name"}}
          \cup {[o |-> "endstmt", r |-> 0, i |-> 0, k |-> "", t |-> "", q |-> "", bp |-> FALSE]}
Edits(x) == Inserts(x) \cup Repls(x) \cup Others
Chosen(x) == IF Mode = "walk" THEN RandomSubset(1, Edits(x)) ELSE Edits(x)
Init == /\ src \in 1..Len(Sources) /\ pr \in 1..Len(Procedures(Sources[src])) /\ es = <<>> /\ done = FALSE
        /\ now = EState(Sources[src], pr)
Do == /\ Len(es) < Depth /\ \E e \in Chosen(now) : es' = Append(es, e) /\ now' = Edit(now, e)
      /\ UNCHANGED <<src, pr, done>>
End == /\ Len(es) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<src, pr, es, now>>
       /\ PrintT("CASE " \o ToJson([src |-> src, proc |-> pr - 1, edits |-> es]))
Next == Do \/ End
Spec == Init /\ [][Next]_<<src, pr, es, now, done>>
\* what is inserted into a region is in that region when the file is parsed again
RegionInv == LET p == Parse(now.h) IN
  Accepts(p) => LET d == Procedures(now.h)[pr] l == Live(now) IN
                /\ d.regs = l.regs /\ d.name = l.name /\ d.headless = l.headless /\ d.labels = l.labels /\ d.tag = now.tag
\* the edits change nothing else: the statements there were are still there, in order
Kept(s) == SelectSeq(s, LAMBDA o : o.b \notin {InsQ[i] : i \in 2..7} \cup {"callzz"})
NothingLostInv == LET reps == Cardinality({i \in 1..Len(es) : es[i].o = "rep"}) IN
  Len(Kept(now.h)) >= Len(Kept(Sources[src])) - reps /\ Len(now.h) >= Len(Sources[src])
=================================================================================
