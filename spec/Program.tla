--------------------------------- MODULE Program ---------------------------------
(* The structure of a Fortran program: which sequences of statements make one, and   *)
(* the tree of constructs that such a sequence stands for (F2018 rules R501 ff., in   *)
(* the part FLPR supports, with the F2008 forms of labelled DO).  The program is read  *)
(* one statement at a time; the state is the stack of constructs that are open.       *)
(*                                                                                  *)
(* A statement is known by its kind k, and its label l.  A kind may stand for several  *)
(* statements of the grammar (a bare END for every kind of end statement).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

I(s) == [s |-> s, m |-> "1"]
Opt(s) == [s |-> s, m |-> "?"]
Star(s) == [s |-> s, m |-> "*"]
\* a rule: the tag of its node ("" : its parts belong to the rule around it), alternatives or a sequence
InOrder(t, is) == [t |-> t, alt |-> FALSE, is |-> is]
OneOf(t, ss) == [t |-> t, alt |-> TRUE, is |-> TLCEval([i \in 1..Len(ss) |-> I(ss[i])])]
Body == <<Opt("specification_part"), Opt("execution_part"), Opt("internal_subprogram_part")>>
Grammar == [
  program |-> InOrder("program", <<I("program_unit"), Star("program_unit")>>),
  program_unit |-> OneOf("program-unit", <<"external_subprogram", "module", "main_program">>),
  external_subprogram |-> OneOf("external-subprogram", <<"function_subprogram", "subroutine_subprogram">>),
  internal_subprogram |-> OneOf("internal-subprogram", <<"function_subprogram", "subroutine_subprogram">>),
  module_subprogram |-> OneOf("module-subprogram", <<"function_subprogram", "subroutine_subprogram", "separate_module_subprogram">>),
  function_subprogram |-> InOrder("function-subprogram", <<I("function-stmt")>> \o Body \o <<I("end-function-stmt")>>),
  subroutine_subprogram |-> InOrder("subroutine-subprogram", <<I("subroutine-stmt")>> \o Body \o <<I("end-subroutine-stmt")>>),
  separate_module_subprogram |-> InOrder("separate-module-subprogram", <<I("mp-subprogram-stmt")>> \o Body \o <<I("end-mp-subprogram-stmt")>>),
  main_program |-> InOrder("main-program", <<Opt("program-stmt")>> \o Body \o <<I("end-program-stmt")>>),
  module |-> InOrder("module", <<I("module-stmt"), Opt("specification_part"), Opt("module_subprogram_part"), I("end-module-stmt")>>),
  module_subprogram_part |-> InOrder("module-subprogram-part", <<I("contains-stmt"), Star("module_subprogram")>>),
  internal_subprogram_part |-> InOrder("internal-subprogram-part", <<I("contains-stmt"), Star("internal_subprogram")>>),
  specification_part |-> InOrder("specification-part", <<Star("use-stmt"), Star("import-stmt"), I("implicit_part"), Star("declaration_construct")>>),
  implicit_part |-> InOrder("implicit-part", <<Star("implicit_part_stmt")>>),
  implicit_part_stmt |-> OneOf("implicit-part-stmt", <<"implicit-stmt", "parameter-stmt", "format-stmt", "entry-stmt">>),
  declaration_construct |-> OneOf("declaration-construct", <<"specification_construct", "data-stmt", "format-stmt", "entry-stmt">>),
  specification_construct |-> OneOf("specification-construct", <<"derived_type_def", "enum_def", "generic-stmt", "interface_block",
     "parameter-stmt", "procedure-declaration-stmt", "other-specification-stmt", "type-declaration-stmt">>),
  derived_type_def |-> InOrder("derived-type-def", <<I("derived-type-stmt"), Opt("private-or-sequence"), I("component_part"),
     Opt("type_bound_procedure_part"), I("end-type-stmt")>>),
  component_part |-> InOrder("component-part", <<Star("component-def-stmt")>>),
  type_bound_procedure_part |-> InOrder("type-bound-procedure-part", <<I("contains-stmt"), Opt("binding-private-stmt"), Star("type-bound-proc-binding")>>),
  enum_def |-> InOrder("enum-def", <<I("enum-def-stmt"), I("enumerator-def-stmt"), Star("enumerator-def-stmt"), I("end-enum-stmt")>>),
  interface_block |-> InOrder("interface-block", <<I("interface-stmt"), Star("interface_specification"), I("end-interface-stmt")>>),
  interface_specification |-> OneOf("interface-specification", <<"interface_body", "procedure-stmt">>),
  interface_body |-> OneOf("interface-body", <<"function_body", "subroutine_body">>),
  function_body |-> InOrder("", <<I("function-stmt"), Opt("specification_part"), I("end-function-stmt")>>),
  subroutine_body |-> InOrder("", <<I("subroutine-stmt"), Opt("specification_part"), I("end-subroutine-stmt")>>),
  execution_part |-> InOrder("execution-part", <<I("executable_construct"), Star("execution_part_construct")>>),
  execution_part_construct |-> OneOf("execution-part-construct", <<"executable_construct", "format-stmt", "data-stmt", "entry-stmt">>),
  executable_construct |-> OneOf("executable-construct", <<"action-stmt", "associate_construct", "block_construct", "case_construct",
     "do_construct", "if_construct", "select_rank_construct", "select_type_construct", "where_construct", "forall_construct">>),
  block |-> InOrder("block", <<Star("execution_part_construct")>>),
  associate_construct |-> InOrder("associate-construct", <<I("associate-stmt"), I("block"), I("end-associate-stmt")>>),
  block_construct |-> InOrder("block-construct", <<I("block-stmt"), I("block_specification_part"), I("block"), I("end-block-stmt")>>),
  block_specification_part |-> InOrder("block-specification-part", <<Star("use-stmt"), Star("import-stmt"), Star("declaration_construct")>>),
  case_construct |-> InOrder("case-construct", <<I("select-case-stmt"), Star("case_group"), I("end-select-stmt")>>),
  case_group |-> InOrder("", <<I("case-stmt"), I("block")>>),
  select_rank_construct |-> InOrder("select-rank-construct", <<I("select-rank-stmt"), Star("rank_group"), I("end-select-rank-stmt")>>),
  rank_group |-> InOrder("", <<I("select-rank-case-stmt"), I("block")>>),
  select_type_construct |-> InOrder("select-type-construct", <<I("select-type-stmt"), Star("type_group"), I("end-select-type-stmt")>>),
  type_group |-> InOrder("", <<I("type-guard-stmt"), I("block")>>),
  if_construct |-> InOrder("if-construct", <<I("if-then-stmt"), I("block"), Star("else_if_group"), Opt("else_group"), I("end-if-stmt")>>),
  else_if_group |-> InOrder("", <<I("else-if-stmt"), I("block")>>),
  else_group |-> InOrder("", <<I("else-stmt"), I("block")>>),
  where_construct |-> InOrder("where-construct", <<I("where-construct-stmt"), Star("where_body_construct"), Star("masked_group"),
     Opt("elsewhere_group"), I("end-where-stmt")>>),
  masked_group |-> InOrder("", <<I("masked-elsewhere-stmt"), Star("where_body_construct")>>),
  elsewhere_group |-> InOrder("", <<I("elsewhere-stmt"), Star("where_body_construct")>>),
  where_body_construct |-> OneOf("where-body-construct", <<"assignment-stmt", "where-stmt", "where_construct">>),
  forall_construct |-> InOrder("forall-construct", <<I("forall-construct-stmt"), Star("forall_body_construct"), I("end-forall-stmt")>>),
  forall_body_construct |-> OneOf("forall-body-construct", <<"forall-assignment-stmt", "where-stmt", "where_construct", "forall_construct", "forall-stmt">>),
  \* how a do-construct ends depends on labels: see Terminal
  do_construct |-> InOrder("do-construct", <<I("do-stmt"), Star("execution_part_construct")>>) ]
Rules == Grammar
Nonterminals == DOMAIN Rules

\* ------------------------------------------------------------ kinds of statements
K(k, ts, tx) == [k |-> k, ts |-> ts, tx |-> tx]
Ends == {"end-program-stmt", "end-function-stmt", "end-subroutine-stmt", "end-module-stmt", "end-mp-subprogram-stmt"}
KindList == <<
  K("program", {"program-stmt"}, <<"program p", "PROGRAM main">>),
  K("module", {"module-stmt"}, <<"module m", "module procedures">>),
  K("sub", {"subroutine-stmt"}, <<"subroutine s", "subroutine s2(a, b)", "pure recursive subroutine s3()", "module subroutine s4", "subroutine s5(*) bind(c)">>),
  K("fun", {"function-stmt"}, <<"function f(x)", "integer function g()", "real(8) elemental function h(x) result(y)", "type(t) function e()">>),
  K("modproc", {"mp-subprogram-stmt", "procedure-stmt"}, <<"module procedure mp">>),
  K("use", {"use-stmt"}, <<"use m", "use, intrinsic :: iso_c_binding, only: c_int", "use mm, a => b">>),
  K("import", {"import-stmt"}, <<"import", "import :: t", "import a, b">>),
  K("implicit", {"implicit-stmt"}, <<"implicit none", "implicit real(a-h), integer(i)">>),
  \* (where it cannot be one it has the form of an unexpanded macro, which FLPR takes for an action)
  K("param", {"parameter-stmt", "action-stmt"}, <<"parameter (n = 3)">>),
  K("equiv", {"other-specification-stmt", "action-stmt"}, <<"equivalence (a, b)">>),
  K("format", {"format-stmt"}, <<"format (i5, f10.2)">>),
  K("entry", {"entry-stmt"}, <<"entry e1", "entry e2(x)">>),
  K("data", {"data-stmt"}, <<"data i /1/", "data a, b /1, 2/, c /3*0/">>),
  K("decl", {"type-declaration-stmt", "component-def-stmt"}, <<"integer :: i", "real a(10)", "type(t), pointer :: p", "character(len=5) :: c = 'a;b'">>),
  K("decl2", {"type-declaration-stmt"}, <<"integer, intent(in) :: i", "real, parameter :: pi = 3.14", "logical, save :: first">>),
  K("access", {"other-specification-stmt"}, <<"public", "private :: a, b", "save", "external f", "dimension a(10)", "common /blk/ a, b", "intent(in) x", "namelist /nl/ a", "allocatable a", "intrinsic sin", "optional x">>),
  K("private", {"other-specification-stmt", "private-or-sequence", "binding-private-stmt"}, <<"private">>),
  K("sequence", {"private-or-sequence"}, <<"sequence">>),
  K("type", {"derived-type-stmt"}, <<"type t", "type :: t2", "type, extends(b) :: t3">>),
  K("endtype", {"end-type-stmt"}, <<"end type", "endtype", "end type t">>),
  K("binding", {"type-bound-proc-binding"}, <<"procedure, nopass :: b => c", "final :: fin", "generic :: operator(+) => add">>),
  K("procptr", {"procedure-declaration-stmt", "component-def-stmt"}, <<"procedure(f), pointer :: pp", "procedure(), pointer :: pp => null()">>),
  K("procomp", {"component-def-stmt"}, <<"procedure(f), pointer, nopass :: pp">>),
  K("enum", {"enum-def-stmt"}, <<"enum, bind(c)">>),
  K("enumerator", {"enumerator-def-stmt"}, <<"enumerator :: a = 1", "enumerator b, c">>),
  K("endenum", {"end-enum-stmt"}, <<"end enum">>),
  K("interface", {"interface-stmt"}, <<"interface", "interface gen", "abstract interface", "interface operator(+)">>),
  K("endinterface", {"end-interface-stmt"}, <<"end interface", "endinterface">>),
  K("contains", {"contains-stmt"}, <<"contains">>),
  K("end", Ends, <<"end", "END">>),
  K("endprogram", {"end-program-stmt"}, <<"end program", "endprogram p">>),
  K("endmodule", {"end-module-stmt"}, <<"end module", "endmodule m">>),
  K("endsub", {"end-subroutine-stmt"}, <<"end subroutine", "end subroutine s", "endsubroutine">>),
  K("endfun", {"end-function-stmt"}, <<"end function", "endfunction f">>),
  K("endproc", {"end-mp-subprogram-stmt"}, <<"end procedure", "endprocedure mp">>),
  K("assign", {"action-stmt", "assignment-stmt", "forall-assignment-stmt"}, <<"x = 1", "a(i)%b = c + 1.0", "if = end", "real(3) = 2", "where(i) = 7">>),
  K("action", {"action-stmt"}, <<"call foo(a, b)", "print *, x", "goto 90", "if (a) x = 1", "return", "stop", "write (6, *) 'a'", "allocate (a(10))",
      "cycle", "exit", "nullify (p)", "open (unit=1)", "if (x) 1, 2, 3", "read (5, *) n", "deallocate (a)", "error stop 1">>),
  K("continue", {"action-stmt", "end-do"}, <<"continue">>),
  K("ptrassign", {"action-stmt", "forall-assignment-stmt"}, <<"p => q", "a%p => null()">>),
  K("wherestmt", {"action-stmt", "where-stmt"}, <<"where (a > 0) b = 1">>),
  K("forallstmt", {"action-stmt", "forall-stmt"}, <<"forall (i=1:3) a(i) = i">>),
  K("associate", {"associate-stmt"}, <<"associate (a => b)", "named: associate (a => b + c)">>),
  K("endassociate", {"end-associate-stmt"}, <<"end associate", "end associate named">>),
  K("block", {"block-stmt"}, <<"block", "named: block">>),
  K("endblock", {"end-block-stmt"}, <<"end block", "endblock", "end block named">>),
  K("select", {"select-case-stmt"}, <<"select case (i)", "named: select case (i+1)", "selectcase (i)">>),
  K("case", {"case-stmt"}, <<"case (1)", "case default", "case (1:3, 7) named">>),
  K("endselect", {"end-select-stmt", "end-select-rank-stmt", "end-select-type-stmt"}, <<"end select", "endselect", "end select named">>),
  K("selectrank", {"select-rank-stmt"}, <<"select rank (a)", "select rank (b => a)">>),
  K("rank", {"select-rank-case-stmt"}, <<"rank (1)", "rank default", "rank (*)">>),
  K("selecttype", {"select-type-stmt"}, <<"select type (x)", "select type (y => x%z)">>),
  K("guard", {"type-guard-stmt"}, <<"type is (integer)", "class is (t)", "class default">>),
  K("if", {"if-then-stmt"}, <<"if (a) then", "named: if (a .and. b(1)) then">>),
  K("elseif", {"else-if-stmt"}, <<"else if (b) then", "elseif (b) then named">>),
  K("else", {"else-stmt"}, <<"else", "else named">>),
  K("endif", {"end-if-stmt"}, <<"end if", "endif", "end if named">>),
  K("where", {"where-construct-stmt"}, <<"where (m)", "named: where (a > b)">>),
  K("masked", {"masked-elsewhere-stmt"}, <<"elsewhere (n)", "else where (n)">>),
  K("elsewhere", {"elsewhere-stmt"}, <<"elsewhere", "else where">>),
  K("endwhere", {"end-where-stmt"}, <<"end where", "endwhere named">>),
  K("forall", {"forall-construct-stmt"}, <<"forall (i=1:3)", "named: forall (i=1:n, j=1:m, a(i) > 0)">>),
  K("endforall", {"end-forall-stmt"}, <<"end forall", "end forall named">>),
  K("do", {"do-stmt"}, <<"do i = 1, 3", "do", "do while (a)", "named: do concurrent (i=1:3)", "named: do">>),
  K("do10", {"do-stmt"}, <<"do 10 i = 1, 3", "do 10, j = 1, 2">>),
  K("do20", {"do-stmt"}, <<"do 20 k = 1, 3", "named: do 20 while (a)">>),
  K("enddo", {"end-do-stmt", "end-do"}, <<"end do", "enddo", "end do named">>) >>
Kind == TLCEval([k \in {KindList[i].k : i \in 1..Len(KindList)} |-> KindList[CHOOSE i \in 1..Len(KindList) : KindList[i].k = k]])
Kinds == DOMAIN Kind
Text(k, v) == Kind[k].tx[(v % Len(Kind[k].tx)) + 1]
DoLabel(k) == IF k = "do10" THEN 10 ELSE IF k = "do20" THEN 20 ELSE 0
\* the statement kind that ends what needs it
EndKind == [t \in {"end-program-stmt", "end-function-stmt", "end-subroutine-stmt", "end-module-stmt", "end-mp-subprogram-stmt", "end-type-stmt", "program_unit",
                   "end-enum-stmt", "end-interface-stmt", "end-associate-stmt", "end-block-stmt", "end-select-stmt", "end-select-rank-stmt",
                   "end-select-type-stmt", "end-if-stmt", "end-where-stmt", "end-forall-stmt", "enumerator-def-stmt"} |->
  CASE t = "end-program-stmt" -> "endprogram" [] t = "end-function-stmt" -> "endfun" [] t = "end-subroutine-stmt" -> "endsub"
    [] t = "end-module-stmt" -> "endmodule" [] t = "end-mp-subprogram-stmt" -> "endproc" [] t = "end-type-stmt" -> "endtype"
    [] t = "end-enum-stmt" -> "endenum" [] t = "end-interface-stmt" -> "endinterface" [] t = "end-associate-stmt" -> "endassociate"
    [] t = "end-block-stmt" -> "endblock" [] t \in {"end-select-stmt", "end-select-rank-stmt", "end-select-type-stmt"} -> "endselect"
    [] t = "end-if-stmt" -> "endif" [] t = "end-where-stmt" -> "endwhere" [] t = "end-forall-stmt" -> "endforall"
    [] t = "enumerator-def-stmt" -> "enumerator" [] t = "program_unit" -> "end"]

\* ------------------------------------------------------------ what a construct can begin with
RECURSIVE CanBeEmpty(_), FirstsOf(_, _)
CanBeEmpty(s) == s \in Nonterminals /\ ~Rules[s].alt /\ \A i \in 1..Len(Rules[s].is) : LET it == Rules[s].is[i] IN it.m # "1" \/ CanBeEmpty(it.s)
Skippable(it) == it.m # "1" \/ CanBeEmpty(it.s)
RECURSIVE SeqFirsts(_, _, _)
SeqFirsts(is, i, lab) == IF i > Len(is) THEN {} ELSE FirstsOf(is[i].s, lab) \cup (IF Skippable(is[i]) THEN SeqFirsts(is, i + 1, lab) ELSE {})
\* lab: the statement has the label that the innermost labelled DO ends on, so it is no construct of its own
FirstsOf(s, lab) ==
  IF s \notin Nonterminals THEN {s}
  ELSE IF lab /\ s = "executable_construct" THEN {}
  ELSE IF Rules[s].alt THEN UNION {FirstsOf(Rules[s].is[i].s, lab) : i \in 1..Len(Rules[s].is)}
  ELSE SeqFirsts(Rules[s].is, 1, lab)
Symbols == Nonterminals \cup UNION {{Rules[r].is[i].s : i \in 1..Len(Rules[r].is)} : r \in Nonterminals}
NullableF == TLCEval([s \in Symbols |-> CanBeEmpty(s)])
Firsts == TLCEval([b \in BOOLEAN |-> TLCEval([s \in Symbols |-> FirstsOf(s, b)])])
\* which kinds a symbol can begin with
Starts == TLCEval([b \in BOOLEAN |-> TLCEval([s \in Symbols |-> TLCEval({k \in Kinds : Kind[k].ts \cap Firsts[b][s] # {}})])])

\* ------------------------------------------------------------ the machine
Node(t, kids) ==
  LET n == SelectSeq(kids, LAMBDA x : x.n > 0)
      b == IF n = <<>> THEN 0 ELSE n[1].b   e == IF n = <<>> THEN 0 ELSE n[Len(n)].e
  IN [t |-> t, s |-> 0, b |-> b, e |-> e, n |-> IF n = <<>> THEN 0 ELSE e - b + 1, k |-> kids]
Leaf(t, i) == [t |-> t, s |-> i, b |-> i, e |-> i, n |-> 1, k |-> <<>>]
Frame(r, lab) == [r |-> r, p |-> 1, kids |-> <<>>, lab |-> lab]
S0 == [st |-> <<Frame("program", 0)>>, n |-> 0, ok |-> TRUE]
Top(st) == st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
AddKids(st, ks) == [st EXCEPT ![Len(st)].kids = @ \o ks]
ItemsOf(f) == IF Rules[f.r].alt THEN (IF f.p = 1 THEN Rules[f.r].is ELSE <<>>) ELSE Rules[f.r].is
\* the nodes of parts that are there but empty
RECURSIVE EmptyNodes(_, _, _), EmptyNode(_)
EmptyNode(s) == Node(Rules[s].t, EmptyNodes(Rules[s].is, 1, Len(Rules[s].is)))
EmptyNodes(is, i, j) == IF i > j THEN <<>>
                        ELSE (IF is[i].m # "*" /\ NullableF[is[i].s] THEN <<EmptyNode(is[i].s)>> ELSE <<>>) \o EmptyNodes(is, i + 1, j)
Closable(f) == /\ f.r # "do_construct"
               /\ IF Rules[f.r].alt THEN f.p > 1
                  ELSE \A i \in f.p..Len(Rules[f.r].is) : LET it == Rules[f.r].is[i] IN it.m # "1" \/ NullableF[it.s]
\* the top construct ends here
CloseTop(st) ==
  LET f == Top(st)
      kids == f.kids \o (IF Rules[f.r].alt THEN <<>> ELSE EmptyNodes(Rules[f.r].is, f.p, Len(Rules[f.r].is)))
  IN AddKids(Pop(st), IF Rules[f.r].t = "" THEN kids ELSE <<Node(Rules[f.r].t, kids)>>)
\* labels of the labelled DOs that are open, the innermost last
DoLabels(st) == LET d == SelectSeq(st, LAMBDA f : f.lab > 0) IN [i \in 1..Len(d) |-> d[i].lab]
IsDoEnd(st, l) == LET d == DoLabels(st) IN d # <<>> /\ l = d[Len(d)]
RunLength(d) == LET S == {i \in 1..Len(d) : \A j \in i..Len(d) : d[j] = d[Len(d)]} IN Cardinality(S)
Refuse(s) == [s EXCEPT !.ok = FALSE]
\* (the state is handed on as the element of a set so that TLC works it out only once)
RECURSIVE Offer(_, _, _), Offered(_, _, _)
Offer(s, x, sh) == CHOOSE r \in {Offered(v, x, sh) : v \in {s}} : TRUE
\* statement x reaches a do-construct that it is not part of the body of; sh: it has ended one already
Terminal(s, x, sh) ==
  LET st == s.st f == Top(st) do == f.kids[1] body == SubSeq(f.kids, 2, Len(f.kids))
      leaf(t) == Leaf(t, s.n) ts == Kind[x.k].ts
      run == RunLength(DoLabels(st))
      block == Node("do-construct", <<do, Node("block", body)>> \o
                 <<leaf(IF f.lab = 0 THEN "end-do-stmt" ELSE "end-do")>>)
      other(t, term) == Node("nonblock-do-construct", <<Node(t, <<do, Node("do-body", body), Node(term, <<leaf("action-stmt")>>)>>)>>)
      done(n) == [s EXCEPT !.st = AddKids(Pop(st), <<n>>)]
  IN IF f.lab = 0 THEN IF "end-do-stmt" \in ts THEN done(block) ELSE Refuse(s)
     ELSE IF x.l # f.lab THEN Refuse(s)
     ELSE IF run = 1 /\ ~sh /\ "end-do" \in ts THEN done(block)
     ELSE IF "action-stmt" \notin ts THEN Refuse(s)
     ELSE IF run = 1 /\ ~sh THEN done(other("action-term-do-construct", "do-term-action-stmt"))
     ELSE IF run = 1 THEN done(other("outer-shared-do-construct", "do-term-shared-stmt"))
     ELSE Offer(done(other("inner-shared-do-construct", "do-term-shared-stmt")), x, TRUE)
Offered(s, x, sh) ==
  LET st == s.st f == Top(st) is == ItemsOf(f) lab == IsDoEnd(st, x.l)
      takes == {i \in f.p..Len(is) : /\ x.k \in Starts[lab][is[i].s]
                                     /\ Rules[f.r].alt \/ \A j \in f.p..(i - 1) : is[j].m # "1" \/ NullableF[is[j].s]}
      i == CHOOSE a \in takes : \A b \in takes : a <= b
  IN IF takes # {} /\ ~sh
     THEN LET it == is[i]
              st2 == [st EXCEPT ![Len(st)].kids = @ \o (IF Rules[f.r].alt THEN <<>> ELSE EmptyNodes(is, f.p, i - 1)),
                                ![Len(st)].p = IF Rules[f.r].alt THEN 2 ELSE IF it.m = "*" THEN i ELSE i + 1,
                                ![Len(st)].lab = IF it.s = "do-stmt" THEN DoLabel(x.k) ELSE @]
          IN IF it.s \in Nonterminals THEN Offer([s EXCEPT !.st = Append(st2, Frame(it.s, 0))], x, FALSE)
             ELSE [s EXCEPT !.st = AddKids(st2, <<Leaf(it.s, s.n)>>)]
     ELSE IF f.r = "do_construct" THEN Terminal(s, x, sh)
     ELSE IF Closable(f) /\ Len(st) > 1 THEN Offer([s EXCEPT !.st = CloseTop(st)], x, sh)
     ELSE Refuse(s)
Step(s, x) == IF ~s.ok THEN s ELSE Offer([s EXCEPT !.n = @ + 1], x, FALSE)
\* the program ends here
RECURSIVE Shut(_)
Shut(st0) == CHOOSE r \in {IF Len(st) = 1 THEN st ELSE IF Closable(Top(st)) THEN Shut(CloseTop(st)) ELSE st : st \in {st0}} : TRUE
Accepts(s) == s.ok /\ s.n > 0 /\ LET t == Shut(s.st) IN Len(t) = 1 /\ t[1].p > 1
Tree(s) == Node("program", Shut(s.st)[1].kids)
\* the statements that are still needed: <<kind, label>> of the next one
Needed(s) ==
  LET t == Shut(s.st) f == Top(t)
      i == CHOOSE a \in f.p..Len(Rules[f.r].is) : /\ Rules[f.r].is[a].m = "1" /\ ~NullableF[Rules[f.r].is[a].s]
                                                  /\ \A b \in f.p..(a - 1) : Rules[f.r].is[b].m # "1" \/ NullableF[Rules[f.r].is[b].s]
  IN IF f.r = "do_construct" THEN (IF f.lab = 0 THEN [k |-> "enddo", l |-> 0] ELSE [k |-> "continue", l |-> f.lab])
     ELSE [k |-> EndKind[Rules[f.r].is[i].s], l |-> 0]
=================================================================================
