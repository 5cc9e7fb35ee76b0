---------------------------------- MODULE Edit -----------------------------------
(* Editing a source file in memory.  The state is what an editing tool may rely on: *)
(* the statements with their labels and tokens, how they are grouped on logical     *)
(* lines, and the text that is not part of a statement (comments, directives,       *)
(* preprocessor lines) in file order.  Every operation changes what it names and     *)
(* nothing else; the file that is written out and read again shows the same state.  *)
(*                                                                                  *)
(* A group (logical line) has: label; st, its statements, each a sequence of token   *)
(* texts; cb, the number of non-statement texts on the lines before the line its     *)
(* first token is on (-1: not tracked); pc, how many of those lie between the         *)
(* previous group and it; emb: its lines may include comments or blanks;             *)
(* one: it is a single physical line; fresh: its lines are as they were read.         *)
EXTENDS Reading

Trim(s) == LET b == SkipIn(s, 1, Spaces) e == SkipBackIn(s, Len(s), Spaces) IN IF b > e THEN "" ELSE SubSeq(s, b, e)
\* the blanks after the mark of a comment do not matter
Norm(t) == IF Ch(t, 1) # "!" \/ Ch(t, 2) \notin Spaces THEN t ELSE "! " \o From(t, SkipIn(t, 2, Spaces))
LineText(l) == l.lt \o l.ls \o l.mt \o l.rs \o l.rt
\* the non-statement text on a physical line: nothing or one item
RowItem(l) ==
  IF HasFlag(l, "b") THEN <<>>
  ELSE IF IsText(l) THEN LET p == FindCh(l.rt, 1, "!") IN IF p = 0 THEN <<>> ELSE <<Norm(Trim(From(l.rt, p)))>>
  ELSE <<Norm(Trim(LineText(l)))>>
RECURSIVE ItemsFrom(_, _, _)
ItemsFrom(ls, i, e) == IF i > e THEN <<>> ELSE RowItem(ls[i]) \o ItemsFrom(ls, i + 1, e)

TextsOf(ts) == [k \in 1..Len(ts) |-> ts[k].t]
\* the groups of a file that has been read; n: non-statement items so far, pn: how many since the last group
RECURSIVE GroupsOf(_, _, _, _, _)
GroupsOf(lls, g, n, pn, acc) ==
  IF g > Len(lls) THEN acc
  ELSE LET L == lls[g]
           all == Len(ItemsFrom(L.layout, 1, Len(L.layout)))
       IN IF L.st = <<>> THEN GroupsOf(lls, g + 1, n + all, pn + all, acc)
          ELSE LET own == Len(ItemsFrom(L.layout, 1, L.toks[L.st[1][1] + 1].ml))
               IN GroupsOf(lls, g + 1, n + all, 0, Append(acc,
                    [label |-> L.label,
                     st |-> [j \in 1..Len(L.st) |-> TextsOf(SubSeq(L.toks, L.st[j][1] + 1, L.st[j][2]))],
                     cb |-> n + own, pc |-> pn,
                     emb |-> \E r \in 1..Len(L.layout) : IsTrivial(L.layout[r]),
                     one |-> Len(L.layout) = 1, fresh |-> TRUE,
                     t0 |-> FindCh(L.layout[1].rt, 1, "!") # 0, od |-> L.layout[1].od # ""]))
RECURSIVE AllItems(_, _)
AllItems(lls, g) == IF g > Len(lls) THEN <<>> ELSE ItemsFrom(lls[g].layout, 1, Len(lls[g].layout)) \o AllItems(lls, g + 1)
FileState(form, lc, raws) ==
  LET lls == LogicalLines(form, lc, raws)
  IN [g |-> GroupsOf(lls, 1, 0, 0, <<>>), com |-> AllItems(lls, 1), form |-> form]

\* cutting the text between two adjoining tokens leaves both sides lexed as before
\* (not so in 1.0e5, three tokens that are only recognized side by side)
Loose(ls) ==
  LET t == StringOf(TextOf(ls), 1)
      x == Lex(t)
      txt(y) == [i \in 1..Len(y) |-> y[i].t]
  IN \A k \in 2..Len(x) : x[k].b = x[k-1].e + 1 =>
       /\ txt(Lex(From(t, x[k].b))) = txt(SubSeq(x, k, Len(x)))
       /\ txt(Lex(Upto(t, x[k-1].e))) = txt(SubSeq(x, 1, k - 1))
\* a character constant is continued by a leading &, as the standard has it
CharContinued(ls) ==
  LET tx == SelectSeq(ls, LAMBDA l : ~IsTrivial(l))
  IN \A i \in 2..Len(tx) : tx[i-1].od # "" => IsContinuation(tx[i])
\* texts that are edited and written again in the specified domain
Editable(form, lc, raws) ==
  LET ls == ReadLines(form, lc, raws)
  IN /\ \A i \in 1..Len(ls) : ls[i] # Refused /\ ls[i] # Unspecified
     /\ WellFormed(ls)
     /\ form = "fixed" => \A i \in 1..Len(raws) : FindCh(raws[i], 1, "\t") = 0   \* tabs depend on the column
     /\ \A i \in 1..Len(ls) : IsText(ls[i]) /\ Ch(ls[i].rt, 1) = "&" =>
          Ch(ls[i].rt, SkipIn(ls[i].rt, 2, Spaces)) \in {"", "!"}
     /\ LET lls == LogicalLines(form, lc, raws)
        IN /\ form = "free" => \A g \in 1..Len(lls) : CharContinued(lls[g].layout)
           /\ \A g \in 1..Len(lls) :
                /\ Separated(lls[g].toks)
                /\ (lls[g].st # <<>> => lls[g].toks[lls[g].st[1][1] + 1].ml = 0)
                /\ (HasFlag(lls[g].layout[1], "l") => lls[g].label # 0)
                /\ (lls[g].st # <<>> => Loose(lls[g].layout))
                /\ (lls[g].st = <<>> => lls[g].toks = <<>>)

---------------------------------------------------------------------------------
RECURSIVE NStmtsFrom(_, _)
NStmtsFrom(g, i) == IF i > Len(g) THEN 0 ELSE Len(g[i].st) + NStmtsFrom(g, i + 1)
NStmts(s) == NStmtsFrom(s.g, 1)
\* <<group, place>> of statement i (from 1)
RECURSIVE Where(_, _, _)
Where(g, k, i) == IF i <= Len(g[k].st) THEN <<k, i>> ELSE Where(g, k + 1, i - Len(g[k].st))

ReplaceAt(q, k, new) == SubSeq(q, 1, k - 1) \o new \o SubSeq(q, k + 1, Len(q))
SplitBefore(s, k, j) ==
  IF j < 2 \/ j > Len(s.g[k].st) THEN s
  ELSE LET G == s.g[k]
           a == [G EXCEPT !.st = SubSeq(@, 1, j - 1), !.fresh = FALSE]
           b == [G EXCEPT !.st = SubSeq(@, j, Len(@)), !.label = 0, !.cb = -1, !.pc = 0, !.fresh = FALSE]
       IN [s EXCEPT !.g = ReplaceAt(@, k, <<a, b>>)]
\* statement j of group k alone on its line; it is then statement 1 of group Iso
Isolated(s, k, j) == LET t == SplitBefore(s, k, j)
                         k2 == IF j > 1 THEN k + 1 ELSE k
                     IN SplitBefore(t, k2, 2)
IsoAt(k, j) == IF j > 1 THEN k + 1 ELSE k
SetToks(s, k, toks) == [s EXCEPT !.g[k].st = <<toks>>, !.g[k].fresh = FALSE, !.g[k].emb = @ \/ ~s.g[k].one]
LexTexts(t) == LET x == Lex(t) IN [i \in 1..Len(x) |-> x[i].t]
NewText(form) == IF form = "free" THEN "zz = 9" ELSE "      zz = 9"
NewGroup(cb, pc) == [label |-> 0, st |-> <<<<"zz", "=", "9">>>>, cb |-> cb, pc |-> pc, emb |-> FALSE, one |-> TRUE,
                     fresh |-> TRUE, t0 |-> FALSE, od |-> FALSE]
InsertAt(q, k, x) == SubSeq(q, 1, k - 1) \o <<x>> \o SubSeq(q, k, Len(q))

\* an operation names a statement a and places b, c in it; all are taken modulo what is there
Op(o, a, b, c, n, t) == [o |-> o, a |-> a, b |-> b, c |-> c, n |-> n, t |-> t]
Mod1(x, n) == (x % n) + 1
Step(s, op, done) ==
  IF ~done \/ NStmts(s) = 0 THEN s
  ELSE
  LET w == Where(s.g, 1, Mod1(op.a, NStmts(s)))
      k == w[1]  j == w[2]
      toks == s.g[k].st[j]
      n == Len(toks)
      b == Mod1(op.b, n)
      e == b + (op.c % (n - b + 1))       \* tokens b..e
      i == Isolated(s, k, j)
      ik == IsoAt(k, j)
  IN
  CASE op.o = "split" -> SplitBefore(s, k, j)
    [] op.o = "iso"   -> i
    [] op.o = "text"  -> SetToks(i, ik, LexTexts(op.t))
    \* a text given in rows
    [] op.o = "rows"  -> [SetToks(i, ik, LexTexts(IF op.n = 2 THEN "zz = q + 1.0" ELSE "zz = q + 1.0 - p(3)")) EXCEPT !.g[ik].one = FALSE, !.g[ik].cb = IF i.g[ik].one THEN @ ELSE -1]
    [] op.o = "sub"   -> SetToks(i, ik, SubSeq(toks, 1, b - 1) \o LexTexts(op.t) \o SubSeq(toks, e + 1, n))
    [] op.o = "after" -> SetToks(i, ik, SubSeq(toks, 1, b) \o LexTexts(op.t) \o SubSeq(toks, b + 1, n))
    [] op.o = "app"   -> SetToks(i, ik, toks \o LexTexts(op.t))
    [] op.o = "repf"  -> [s EXCEPT !.g[k].st[j][b] = op.t, !.g[k].fresh = FALSE]
    [] op.o = "remf"  -> [s EXCEPT !.g[k].st[j] = SubSeq(@, 1, b - 1) \o SubSeq(@, b + 1, n), !.g[k].fresh = FALSE]
    [] op.o = "label" -> IF op.n = 0 \/ (j = 1 /\ s.g[k].label # 0)
                         THEN (IF j = 1 /\ s.g[k].label # 0 THEN [s EXCEPT !.g[k].label = op.n, !.g[k].fresh = FALSE] ELSE s)
                         ELSE [SplitBefore(s, k, j) EXCEPT !.g[ik].label = op.n, !.g[ik].fresh = FALSE]
    [] op.o = "ins"   -> LET t == SplitBefore(s, k, j)
                         IN [t EXCEPT !.g = InsertAt(@, ik, NewGroup(IF j > 1 \/ t.g[ik].cb = -1 THEN -1 ELSE t.g[ik].cb - t.g[ik].pc, 0))]
    [] op.o = "insp"  -> LET t == SplitBefore(s, k, j)
                             u == [t EXCEPT !.g[ik].pc = 0]
                         IN [u EXCEPT !.g = InsertAt(@, ik, NewGroup(t.g[ik].cb, t.g[ik].pc))]
    [] op.o = "rmemp" -> [s EXCEPT !.g[k].fresh = FALSE, !.g[k].cb = IF s.g[k].one THEN @ ELSE -1,
                          !.g[k].emb = @ \/ ~s.g[k].one]
    [] op.o = "ind"   -> [s EXCEPT !.g[k].fresh = FALSE]
    [] op.o = "com"   -> LET c == s.g[k].cb IN
                         IF s.g[k].t0 THEN [s EXCEPT !.com[c + 1] = @ \o " : " \o op.t]
                         ELSE [s EXCEPT !.com = InsertAt(@, c + 1, "! " \o op.t),
                                        !.g = [x \in 1..Len(s.g) |-> IF x = k THEN [s.g[x] EXCEPT !.t0 = TRUE]
                                                 ELSE IF x > k /\ s.g[x].cb # -1 THEN [s.g[x] EXCEPT !.cb = @ + 1] ELSE s.g[x]]]
    [] OTHER -> s

\* what an operation reports
Result(s, op) ==
  IF NStmts(s) = 0 THEN "" ELSE
  LET w == Where(s.g, 1, Mod1(op.a, NStmts(s)))
      k == w[1]  j == w[2]
  IN CASE op.o = "split" -> IF j > 1 THEN "T" ELSE "F"
       [] op.o = "iso"   -> IF Len(s.g[k].st) > 1 THEN "T" ELSE "F"
       [] op.o = "label" -> IF (IF j = 1 THEN s.g[k].label ELSE 0) # op.n THEN "T" ELSE "F"
       [] op.o = "rmemp" -> "N"         \* no empty statement left on the line
       [] OTHER -> ""

\* when an operation has to be carried out (elsewhere it may be declined)
Must(s, op) ==
  LET w == Where(s.g, 1, Mod1(op.a, NStmts(s)))
      k == w[1]  j == w[2]
  IN CASE op.o \in {"remf", "repf", "com", "rmemp"} -> FALSE
       [] OTHER -> TRUE
Allowed(s, op) ==
  LET w == Where(s.g, 1, Mod1(op.a, NStmts(s)))
      k == w[1]  j == w[2]
  IN CASE op.o = "com" -> s.g[k].fresh /\ s.g[k].cb # -1 /\ ~s.g[k].od
       [] op.o = "remf" -> Len(s.g[k].st[j]) > 1
       [] OTHER -> TRUE

\* a line that begins like a label or an include line is read as one
Starts(s) == \A k \in 1..Len(s.g) :
  /\ Ch(s.g[k].st[1][1], 1) \notin Digits
  /\ \A j \in 1..Len(s.g[k].st) : LET q == s.g[k].st[j] IN
       \A i \in 1..Len(q) : q[i] # "#" /\ ~(Lower(q[i]) = "include" /\ i < Len(q) /\ Ch(q[i+1], 1) \in Quotes)
Shown(s, v) ==
  /\ v.com = s.com
  /\ Len(v.g) = Len(s.g)
  /\ \A k \in 1..Len(s.g) :
       LET a == s.g[k] o == v.g[k] IN
       /\ o.label = a.label /\ o.st = a.st
       /\ o.comp = [j \in 1..Len(a.st) |-> IF Len(a.st) > 1 THEN j ELSE 0]
       /\ a.cb # -1 => o.cb = a.cb

\* properties of the model
StmtTexts(s) == [k \in 1..Len(s.g) |-> s.g[k].st]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Labels(s) == SelectSeq([k \in 1..Len(s.g) |-> s.g[k].label], LAMBDA x : x # 0)
StepOK(s, op, t) ==
  /\ op.o \in {"split", "iso", "label", "rmemp", "ind"} => Flat(StmtTexts(s)) = Flat(StmtTexts(t))
  /\ op.o # "com" => s.com = t.com
  /\ op.o # "label" => Labels(s) = Labels(t)
  /\ NStmts(t) = NStmts(s) + (IF op.o \in {"ins", "insp"} THEN 1 ELSE 0)
  /\ Result(s, op) = "F" => StmtTexts(s) = StmtTexts(t)
=================================================================================
