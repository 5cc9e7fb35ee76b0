-------------------------------- MODULE MC_Edit ----------------------------------
(* Explores Edit from each of a set of source texts: every history of operations up *)
(* to a depth, or random ones.  Explored histories are emitted for replay.          *)
EXTENDS Edit, Json, Randomization
CONSTANTS Sources, Form, Depth, Mode, Inserts, Kinds
VARIABLES src, s, hist
Ok(x) == Editable(Form, 0, x)
Init == /\ src \in {Sources[i] : i \in 1..Len(Sources)} /\ Ok(src)
        /\ s = FileState(Form, 0, src) /\ hist = <<>>
\* the operations, with the places that make a difference
AtStmt(x, i) ==
  LET w == Where(x.g, 1, i) n == Len(x.g[w[1]].st[w[2]]) IN
  UNION {
    {Op(o, i - 1, 0, 0, 0, "") : o \in {"split", "iso", "ins", "insp", "rmemp"} \cap Kinds},
    {Op("text", i - 1, 0, 0, 0, t) : t \in IF "text" \in Kinds THEN Inserts ELSE {}},
    {Op("rows", i - 1, 0, 0, r, "") : r \in IF "rows" \in Kinds THEN {2, 3} ELSE {}},
    {Op("app", i - 1, 0, 0, 0, t) : t \in IF "app" \in Kinds THEN Inserts ELSE {}},
    {Op("label", i - 1, 0, 0, l, "") : l \in IF "label" \in Kinds THEN {0, 7, 12345} ELSE {}},
    {Op("ind", i - 1, 0, 0, l, "") : l \in IF "ind" \in Kinds THEN {0, 3, 9} ELSE {}},
    {Op("com", i - 1, 0, 0, 0, "note") : l \in IF "com" \in Kinds THEN {0} ELSE {}},
    {Op("after", i - 1, b, 0, 0, t) : b \in 0..(n - 1), t \in IF "after" \in Kinds THEN Inserts ELSE {}},
    {Op("repf", i - 1, b, 0, 0, t) : b \in 0..(n - 1), t \in IF "repf" \in Kinds THEN {"q", "longer_name"} ELSE {}},
    {Op("remf", i - 1, b, 0, 0, "") : b \in IF "remf" \in Kinds THEN 0..(n - 1) ELSE {}},
    {Op("sub", i - 1, b, c, 0, t) : b \in 0..(n - 1), c \in 0..(n - 1), t \in IF "sub" \in Kinds THEN Inserts ELSE {}} }
Legal(x, op) == /\ Allowed(x, op) /\ Starts(Step(x, op, TRUE))
                /\ op.o = "sub" => LET w == Where(x.g, 1, op.a + 1) IN op.b + op.c < Len(x.g[w[1]].st[w[2]])
Ops(x) == {op \in UNION {AtStmt(x, i) : i \in 1..NStmts(x)} : Legal(x, op)}
Chosen(x) == IF Mode = "walk" THEN RandomSubset(1, Ops(x)) ELSE Ops(x)
Next == /\ Len(hist) < Depth
        /\ \E op \in Chosen(s) :
             LET t == Step(s, op, TRUE) h == Append(hist, op) IN
             /\ Assert(StepOK(s, op, t), <<"step property", s, op, t>>)
             /\ s' = t /\ hist' = h /\ src' = src
             /\ Len(h) = Depth => PrintT("CASE " \o ToJson([form |-> Form, lc |-> 0, lines |-> src, ops |-> h]))
Spec == Init /\ [][Next]_<<src, s, hist>>
\* the model never loses track: comments before a statement never exceed those of the next one
Ordered == \A i, j \in 1..Len(s.g) : i < j /\ s.g[i].cb # -1 /\ s.g[j].cb # -1 => s.g[i].cb <= s.g[j].cb
Tracked == \A i \in 1..Len(s.g) : s.g[i].cb <= Len(s.com) /\ s.g[i].pc <= Len(s.com)
=================================================================================
