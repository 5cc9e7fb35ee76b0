-------------------------------- MODULE Reading ---------------------------------
(* From physical lines to logical lines, tokens with positions, and statements.   *)
EXTENDS SourceForm, Lexer

---------------------------------------------------------------------------------
(* Grouping.  A group is an interval [b, e] of physical lines; the groups tile the *)
(* file.  Comment/blank lines form blocks, except inside a continued statement.    *)
RECURSIVE TrivialEnd(_, _)
TrivialEnd(ls, i) == IF i < Len(ls) /\ IsTrivial(ls[i + 1]) THEN TrivialEnd(ls, i + 1) ELSE i
IsLit(l) == HasFlag(l, "x")
RECURSIVE LitEnd(_, _)
LitEnd(ls, i) == IF i < Len(ls) /\ IsLit(ls[i + 1]) THEN LitEnd(ls, i + 1) ELSE i

RECURSIVE MacroEnd(_, _)
MacroEnd(ls, i) == IF i < Len(ls) /\ EndsInBackslash(ls[i].lt) THEN MacroEnd(ls, i + 1) ELSE i

\* free form: a statement ends at its first text line that is not continued
RECURSIVE FreeStmtEnd(_, _)
FreeStmtEnd(ls, i) == IF i > Len(ls) THEN 0
                      ELSE IF ~IsTrivial(ls[i]) /\ ~IsContinued(ls[i]) THEN i
                      ELSE FreeStmtEnd(ls, i + 1)
\* fixed form: a statement extends to the last continuation line that follows it
RECURSIVE FixedStmtEnd(_, _, _)
FixedStmtEnd(ls, i, last) == IF i > Len(ls) THEN last
                             ELSE IF IsContinuation(ls[i]) THEN FixedStmtEnd(ls, i + 1, i)
                             ELSE IF IsTrivial(ls[i]) THEN FixedStmtEnd(ls, i + 1, last)
                             ELSE last

GroupEnd(ls, i) ==
  LET l == ls[i] IN
  IF IsTrivial(l) THEN TrivialEnd(ls, i)
  ELSE IF IsLit(l) THEN LitEnd(ls, i)
  ELSE IF ~IsText(l) THEN MacroEnd(ls, i)
  ELSE IF IsFixed(l) THEN FixedStmtEnd(ls, i + 1, i)
  ELSE LET e == FreeStmtEnd(ls, i) IN IF e = 0 THEN i ELSE e

RECURSIVE GroupsFrom(_, _, _)
GroupsFrom(ls, i, acc) == IF i > Len(ls) THEN acc
                          ELSE LET e == GroupEnd(ls, i)
                               IN GroupsFrom(ls, e + 1, Append(acc, <<i, e>>))
Groups(ls) == GroupsFrom(ls, 1, <<>>)

Category(l) == IF IsLit(l) THEN "LITERAL" ELSE IF HasFlag(l, "f") THEN "FLPR_PP"
               ELSE IF HasFlag(l, "i") THEN "INCLUDE" ELSE IF HasFlag(l, "p") THEN "MACRO"
               ELSE "UNKNOWN"

(* Sources about which grouping and tokens are specified: a continued statement   *)
(* is followed (past comments) by a line of text, only macros end in a backslash,  *)
(* and a fixed-form character context ends with its statement.                     *)
RECURSIVE WellFormedFrom(_, _)
WellFormedFrom(ls, i) ==
  IF i > Len(ls) THEN TRUE
  ELSE LET e == GroupEnd(ls, i) IN
       /\ IF ~IsText(ls[i])
          THEN IsTrivial(ls[i]) \/ IsLit(ls[i]) \/ HasFlag(ls[i], "p")
               \/ ~EndsInBackslash(ls[i].lt)
          ELSE /\ IsFixed(ls[i]) \/ FreeStmtEnd(ls, i) # 0
               /\ \A j \in i..e : IsText(ls[j]) \/ IsTrivial(ls[j])
               /\ \A j \in i+1..e : ~HasFlag(ls[j], "l")
               /\ ls[e].od = ""
               /\ ~IsContinuation(ls[i])
               /\ ~IsFixed(ls[i]) \/ \A j \in i+1..e : HasFlag(ls[j], "b") => ls[j].lt = "" \/ SkipIn(ls[j].lt,1,Blanks) > Len(ls[j].lt)
       /\ WellFormedFrom(ls, e + 1)
WellFormed(ls) == WellFormedFrom(ls, 1)

---------------------------------------------------------------------------------
(* The text of a logical line: the main texts of its lines strung together, each  *)
(* character remembering the line (index in the group, from 0) and the column of   *)
(* the main text (from 0) it came from.  A blank separates lines where the source  *)
(* has blanks there, or where a token cannot run on into the next line.            *)
Sep == [c |-> " ", l |-> -1, m |-> 0]
Cells(mt, li) == [i \in 1..Len(mt) |-> [c |-> Ch(mt, i), l |-> li, m |-> i - 1]]

RECURSIVE TextFrom(_, _, _, _)
TextFrom(ls, i, prev, acc) ==
  IF i > Len(ls) THEN acc
  ELSE LET l == ls[i] IN
       IF IsTrivial(l) THEN TextFrom(ls, i + 1, prev, acc)
       ELSE LET gap == prev # 0 /\ (l.ls # "" \/ (ls[prev].od = "" /\ ~IsFixed(l)
                                                  /\ ~IsContinuation(l)))
            IN TextFrom(ls, i + 1, i,
                        acc \o (IF gap THEN <<Sep>> ELSE <<>>) \o Cells(l.mt, i - 1)
                            \o (IF l.rs # "" THEN <<Sep>> ELSE <<>>))
TextOf(ls) == TextFrom(ls, 1, 0, <<>>)

RECURSIVE StringOf(_, _)
StringOf(cells, i) == IF i > Len(cells) THEN "" ELSE cells[i].c \o StringOf(cells, i + 1)

\* Tokens of a logical line made of the lines ls; n1 is the file number of ls[1].
TokensOf(ls, n1) ==
  LET cells == TextOf(ls)
      toks  == Lex(StringOf(cells, 1))
      one(k) == LET b == cells[toks[k].b]
                    e == cells[toks[k].e]
                IN [t |-> toks[k].t, k |-> toks[k].k,
                    l |-> n1 + b.l, c |-> MainCol(ls[b.l + 1]) + b.m,
                    ml |-> b.l, mc |-> b.m, el |-> e.l, ec |-> e.m + 1,
                    gap |-> IF k = 1 THEN 0 ELSE toks[k].b - toks[k-1].e - 1,
                    run |-> k < Len(toks) /\ Runs(toks, k),
                    same |-> k > 1 /\ cells[toks[k-1].e].l = b.l]
  IN [k \in 1..Len(toks) |-> one(k)]

Separated(ts) == \A k \in 1..Len(ts) : ~ts[k].run

\* non-empty statements of a token sequence: half-open index ranges (from 0)
RECURSIVE StmtsFrom(_, _, _, _)
StmtsFrom(ts, i, b, acc) ==
  IF i > Len(ts) THEN (IF b < i THEN Append(acc, <<b - 1, i - 1>>) ELSE acc)
  ELSE IF ts[i].k = ";" THEN StmtsFrom(ts, i + 1, i + 1,
                                       IF b < i THEN Append(acc, <<b - 1, i - 1>>) ELSE acc)
  ELSE StmtsFrom(ts, i + 1, b, acc)
StmtRanges(ts) == StmtsFrom(ts, 1, 1, <<>>)

LabelOf(ls) == IF HasFlag(ls[1], "l") THEN NumOf(ls[1].lt) ELSE 0

\* the whole reading of a source text
LogicalLines(form, lc, raws) ==
  LET ls == ReadLines(form, lc, raws)
      gs == Groups(ls)
  IN [g \in 1..Len(gs) |->
       LET sub == SubSeq(ls, gs[g][1], gs[g][2])
           ts  == TokensOf(sub, gs[g][1])
       IN [layout |-> sub, n1 |-> gs[g][1], cat |-> Category(sub[1]), label |-> LabelOf(sub),
           toks |-> ts, st |-> StmtRanges(ts)]]

\* the statements of the file: the lines without statements that precede a line with
\* some are the prefix of its first statement, which alone carries the label
RECURSIVE FileStmtsFrom(_, _, _, _)
FileStmtsFrom(lls, g, prefix, acc) ==
  IF g > Len(lls) THEN acc
  ELSE LET n == Len(lls[g].st) IN
       IF n = 0 THEN FileStmtsFrom(lls, g + 1, Append(prefix, g - 1), acc)
       ELSE FileStmtsFrom(lls, g + 1, <<>>,
              acc \o [j \in 1..n |->
                 [ll |-> g - 1, b |-> lls[g].st[j][1], e |-> lls[g].st[j][2],
                  label |-> IF j = 1 THEN lls[g].label ELSE 0,
                  comp |-> IF n > 1 THEN j ELSE 0,
                  prefix |-> IF j = 1 THEN prefix ELSE <<>>]])
FileStmts(lls) == FileStmtsFrom(lls, 1, <<>>, <<>>)
=================================================================================
