------------------------------- MODULE MC_Program --------------------------------
(* Explores Program: programs statement by statement.  Every explored history is     *)
(* completed by the statements it still needs and emitted, to be parsed by the        *)
(* implementation.  Mode "all": every history of a length; "tour": every transition   *)
(* of the graph of open constructs; "walk": random histories.                       *)
EXTENDS Program, Json, Randomization
CONSTANTS Depth, Mode, Open, Prefix, Only
VARIABLES now, hist, done
Op(k, l, v) == [k |-> k, l |-> l, t |-> Text(k, v)]
Line(x) == IF x.l > 0 THEN ToString(x.l) \o " " \o x.t ELSE x.t
Enders == {k \in Kinds : Kind[k].ts \cap {"action-stmt", "end-do"} # {}}
InPlainDo(st) == LET d == SelectSeq(st, LAMBDA f : f.r = "do_construct") IN d # <<>> /\ d[Len(d)].lab = 0
LabelsFor(x, k) == LET d == DoLabels(x.st) IN
  IF k = "format" THEN {100 + x.n}
  ELSE {0} \cup (IF d # <<>> /\ k \in Enders /\ ~InPlainDo(x.st) THEN {d[Len(d)]} ELSE {}) \cup (IF k = "enddo" THEN {77} ELSE {})
\* a DO with the label of one that is open has to be directly inside that one
Nests(st, k) == DoLabel(k) > 0 =>
  LET S == {i \in 1..Len(st) : st[i].lab = DoLabel(k)} IN
  \A i \in S : \A j \in i..Len(st) : st[j].lab = DoLabel(k) \/ st[j].r \in {"execution_part_construct", "executable_construct"}
Ops(x, ks) == UNION {{Op(k, l, Len(hist)) : l \in LabelsFor(x, k)} : k \in {q \in ks : Nests(x.st, q)}}
Legal(x, ks) == {op \in Ops(x, ks) : LET t == Step(x, op) IN t.ok /\ Len(t.st) <= Open}
Chosen(x) == IF Mode # "walk" THEN Legal(x, Only)
             ELSE LET few == Legal(x, RandomSubset(IF Cardinality(Only) > 12 THEN 12 ELSE Cardinality(Only), Only))
                      L == IF few = {} THEN Legal(x, Only) ELSE few
                  IN {[op EXCEPT !.t = Text(op.k, RandomElement(0..15))] : op \in IF L = {} THEN {} ELSE RandomSubset(1, L)}
RECURSIVE Finish(_, _), Run(_, _, _)
Finish(x0, h) == CHOOSE r \in {IF Accepts(x) \/ ~x.ok THEN h
                ELSE LET nd == Needed(x) op == Op(nd.k, nd.l, Len(h)) IN Finish(Step(x, op), Append(h, op)) : x \in {x0}} : TRUE
Run(x0, h, i) == CHOOSE r \in {IF i > Len(h) THEN x ELSE Run(Step(x, h[i]), h, i + 1) : x \in {x0}} : TRUE
Ks(h) == [i \in 1..Len(h) |-> [k |-> h[i].k, l |-> h[i].l]]
Say(x, h) == LET f == Finish(x, h) IN PrintT("CASE " \o ToJson([form |-> "free", lc |-> 0, ops |-> Ks(f), lines |-> [i \in 1..Len(f) |-> Line(f[i])]]))
Start == [i \in 1..Len(Prefix) |-> Op(Prefix[i], 0, 0)]
Init == hist = Start /\ now = Run(S0, Start, 1) /\ done = FALSE
Do == /\ Len(hist) < Depth
      /\ \E op \in Chosen(now) : LET t == Step(now, op) h == Append(hist, op) IN
           /\ now' = t /\ hist' = h /\ done' = FALSE
           /\ Mode = "tour" => Say(t, h)
End == /\ Mode # "tour" /\ (Len(hist) = Depth \/ Legal(now, Only) = {}) /\ ~done /\ done' = TRUE /\ UNCHANGED <<now, hist>> /\ Say(now, hist)
Next == Do \/ End
Spec == Init /\ [][Next]_<<now, hist, done>>
CoreView == <<now.ok, [i \in 1..Len(now.st) |-> <<now.st[i].r, now.st[i].p, now.st[i].lab>>]>>
\* every statement is in the tree, in order, and every node covers what is below it
RECURSIVE Leaves(_), LeavesOf(_, _), Covers(_)
LeavesOf(k, i) == IF i > Len(k) THEN <<>> ELSE Leaves(k[i]) \o LeavesOf(k, i + 1)
Leaves(t) == IF t.s > 0 THEN <<t.s>> ELSE LeavesOf(t.k, 1)
Covers(t) == LET L == Leaves(t) IN /\ L = <<>> => t.n = 0
                                   /\ L # <<>> => t.b = L[1] /\ t.e = L[Len(L)] /\ t.n = t.e - t.b + 1
                                   /\ \A i \in 1..Len(t.k) : Covers(t.k[i])
Finished == Run(S0, Finish(now, hist), 1)
CoverInv == LET f == Finished L == Leaves(Tree(f)) IN
            /\ Accepts(f) /\ Covers(Tree(f))
            /\ {L[i] : i \in 1..Len(L)} = 1..f.n
            /\ \A i \in 2..Len(L) : L[i] \in {L[i-1], L[i-1] + 1}
=================================================================================
