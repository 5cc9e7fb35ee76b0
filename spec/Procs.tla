---------------------------------- MODULE Procs ----------------------------------
(* The procedures of a program, and editing a program through one of them.            *)
(*                                                                                  *)
(* A statement here is [k, l, b, nm, e]: kind, label, and its text without blanks as   *)
(* the parts b \o nm \o e, nm being the name of the procedure if it is there.          *)
EXTENDS Program
RECURSIVE RunAll(_, _, _)
RunAll(x0, h, i) == CHOOSE r \in {IF i > Len(h) THEN x ELSE RunAll(Step(x, h[i]), h, i + 1) : x \in {x0}} : TRUE
Parse(h) == RunAll(S0, h, 1)

ProcTags == {"function-subprogram", "subroutine-subprogram", "separate-module-subprogram", "main-program"}
Span(n) == IF n.n = 0 THEN <<>> ELSE [i \in 1..n.n |-> n.b + i - 1]
Kids(n, t) == SelectSeq(n.k, LAMBDA x : x.t = t)
RECURSIVE Spans(_, _)
Spans(ns, i) == IF i > Len(ns) THEN <<>> ELSE Span(ns[i]) \o Spans(ns, i + 1)
PartOf(n, t) == IF Kids(n, t) = <<>> THEN Node("", <<>>) ELSE Kids(n, t)[1]
\* the eight regions of a procedure
Regions(n) == LET sp == PartOf(n, "specification-part") IN
  << Spans(SelectSeq(n.k, LAMBDA x : x.s > 0 /\ x.t \in {"function-stmt", "subroutine-stmt", "mp-subprogram-stmt", "program-stmt"}), 1),
     Spans(Kids(sp, "use-stmt"), 1), Spans(Kids(sp, "import-stmt"), 1), Spans(Kids(sp, "implicit-part"), 1),
     Spans(Kids(sp, "declaration-construct"), 1), Spans(Kids(n, "execution-part"), 1), Spans(Kids(n, "internal-subprogram-part"), 1),
     <<n.e>> >>
Describe(n, h, internal, module) ==
  LET rs == Regions(n) headless == rs[1] = <<>> IN
  [ok |-> TRUE, init |-> TRUE, tag |-> n.t, internal |-> internal, module |-> module, main |-> n.t = "main-program", headless |-> headless,
   name |-> IF headless THEN "" ELSE h[n.b].nm,
   labels |-> LET s == SelectSeq(SubSeq(h, n.b, n.e), LAMBDA o : o.l > 0) IN [i \in 1..Len(s) |-> s[i].l],
   regs |-> rs]
\* every procedure, each before those inside it, in file order; interface bodies are none, and an internal
\* procedure can have none inside it in Fortran
RECURSIVE Found(_, _, _, _), FoundIn(_, _, _, _, _)
Found(n, h, internal, module) ==
  IF n.t \in ProcTags THEN <<Describe(n, h, internal, module)>> \o (IF internal THEN <<>> ELSE FoundIn(n.k, h, TRUE, module, 1))
  ELSE IF n.t \in {"program", "program-unit", "external-subprogram", "internal-subprogram-part", "internal-subprogram",
                   "module-subprogram-part", "module-subprogram"} THEN FoundIn(n.k, h, internal, module, 1)
  ELSE IF n.t = "module" THEN FoundIn(n.k, h, internal, TRUE, 1)
  ELSE <<>>
FoundIn(ns, h, internal, module, i) == IF i > Len(ns) THEN <<>> ELSE Found(ns[i], h, internal, module) \o FoundIn(ns, h, internal, module, i + 1)
Procedures(h) == Found(Tree(Parse(h)), h, FALSE, FALSE)
QText(o) == o.b \o o.nm \o o.e

\* ------------------------------------------------------------ editing
\* state: the statements h, the procedure's first statement at, the sizes c of its regions, its tag; res: what the last call returned
SumTo(c, r) == LET f[i \in 0..Len(c)] == IF i = 0 THEN 0 ELSE f[i - 1] + c[i] IN f[r]
EState(h, p) == LET d == Procedures(h)[p] IN
  [h |-> h, at |-> IF d.regs[1] # <<>> THEN d.regs[1][1] ELSE LET R == {i \in 1..8 : d.regs[i] # <<>>} IN d.regs[CHOOSE i \in R : \A j \in R : i <= j][1],
   c |-> [i \in 1..8 |-> Len(d.regs[i])], tag |-> d.tag, res |-> ""]
\* an insertion into region r in front of its i'th statement (counted from 0; at the end if there are not so many)
Min(a, b) == IF a < b THEN a ELSE b
InsertAt(s, o, r, i) ==
  LET q == s.at + SumTo(s.c, r - 1) + Min(i, s.c[r]) IN
  [s EXCEPT !.h = SubSeq(s.h, 1, q - 1) \o <<o>> \o SubSeq(s.h, q, Len(s.h)), !.c[r] = @ + 1, !.res = ToString(q)]
First(s) == s.at
Last(s) == s.at + SumTo(s.c, 8) - 1
NameNow(s) == IF s.c[1] = 0 THEN "" ELSE s.h[First(s)].nm
Keyword(tag) == CASE tag = "function-subprogram" -> "function" [] tag = "subroutine-subprogram" -> "subroutine"
                  [] tag = "separate-module-subprogram" -> "procedure" [] tag = "main-program" -> "program"
Bare == {"end"}
Rename(s, nm) ==
  IF nm = NameNow(s) THEN [s EXCEPT !.res = "F"]
  ELSE IF s.c[1] = 0 THEN [InsertAt(s, [k |-> "program", l |-> 0, b |-> "program", nm |-> nm, e |-> ""], 1, 0) EXCEPT !.res = "T"]
  ELSE [s EXCEPT !.h[First(s)].nm = nm, !.h[Last(s)].nm = IF @ = "" THEN @ ELSE nm, !.res = "T"]
CompleteEnd(s) ==
  LET o == s.h[Last(s)]
      kw == Keyword(s.tag)
      o2 == IF o.k = "end" THEN [o EXCEPT !.k = CASE kw = "function" -> "endfun" [] kw = "subroutine" -> "endsub" [] kw = "procedure" -> "endproc"
                                                  [] kw = "program" -> "endprogram",
                                          !.b = @ \o kw, !.nm = NameNow(s)]
            ELSE IF o.nm = "" THEN [o EXCEPT !.nm = NameNow(s)] ELSE o
  IN [s EXCEPT !.h[Last(s)] = o2, !.res = IF o2 = o THEN "F" ELSE "T"]
\* another text for the i'th statement of region r; it keeps its label
Replace(s, o, r, i) ==
  LET q == s.at + SumTo(s.c, r - 1) + (i % s.c[r]) IN IF s.c[r] = 0 THEN [s EXCEPT !.res = ""] ELSE [s EXCEPT !.h[q] = [o EXCEPT !.l = s.h[q].l], !.res = ToString(q)]
Stmt(e) == [k |-> e.k, l |-> 0, b |-> e.q, nm |-> "", e |-> ""]
Edit(s, e) == CASE e.o = "ins" -> InsertAt(s, Stmt(e), e.r + 1, e.i)
                [] e.o = "rename" -> Rename(s, e.t)
                [] e.o = "endstmt" -> CompleteEnd(s)
                [] e.o = "rep" -> Replace(s, Stmt(e), e.r + 1, e.i)
Live(s) ==
  [init |-> TRUE, main |-> s.tag = "main-program", headless |-> s.c[1] = 0, name |-> NameNow(s),
   regs |-> [r \in 1..8 |-> [i \in 1..s.c[r] |-> s.at + SumTo(s.c, r - 1) + i - 1]],
   labels |-> LET q == SelectSeq(SubSeq(s.h, First(s), Last(s)), LAMBDA o : o.l > 0) IN [i \in 1..Len(q) |-> q[i].l]]
=================================================================================
