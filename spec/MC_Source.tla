------------------------------- MODULE MC_Source --------------------------------
(* All small source texts: a text is typed chunk by chunk and line by line.  In    *)
(* every state the text typed so far is a complete source whose reading must have  *)
(* the properties below; each such text is also a behaviour replayed into the code. *)
EXTENDS Reading, Json

CONSTANTS Form, Lc,       \* source form and last column
          Alphabet,       \* chunks that can be typed
          Starts,         \* how a line can start
          MaxChunks, MaxLines,
          Emit            \* print each text

VARIABLES done, cur, n
vars == <<done, cur, n>>
Source == Append(done, cur)

Init == done = <<>> /\ cur \in Starts /\ n = 0
Type(c) == n < MaxChunks /\ cur' = cur \o c /\ n' = n + 1 /\ UNCHANGED done
Newline(p) == /\ n < MaxChunks /\ Len(done) + 1 < MaxLines
              /\ done' = Append(done, cur) /\ cur' = p /\ n' = n + 1
Next == (\E c \in Alphabet : Type(c)) \/ (\E p \in Starts : Newline(p))
Spec == Init /\ [][Next]_vars

Accepted(ls)  == \A i \in 1..Len(ls) : ls[i] \notin {Refused, Unspecified}
Specified(ls) == Accepted(ls) /\ WellFormed(ls)

---------------------------------------------------------------------------------
\* what the text looks like once tabs in control columns and commentary past the
\* last column have been made explicit
Normal(raw) == IF Form = "free" THEN raw ELSE ExpandTabs(raw)
Explicit(raw) == {raw} \cup
  IF Lc > 0 /\ Len(raw) > Lc
  THEN {Upto(raw, Lc) \o "! " \o From(raw, Lc + 1)}
       \cup (IF OnlySpaceFrom(raw, Lc + 1) THEN {Upto(raw, Lc)} ELSE {})
  ELSE {}
\* statement text that intrudes on the control columns of fixed form moves to column 7
Realign(raw) ==
  LET f == SkipIn(raw, 1, Blanks)
      k == IF f = 6 THEN 7 ELSE Min2(SkipIn(raw, f, Digits), 7)
      b == SkipIn(raw, k, Spaces)
      at(j) == IF j >= 7 THEN raw ELSE Pad(Upto(raw, IF k = f THEN 0 ELSE k - 1), 6) \o From(raw, j)
  IN {at(b), at(k)}     \* the blanks after a label belong to an (ill-formed) open character context
RoundTrip == LET ls == ReadLines(Form, Lc, Source) IN
  Accepted(ls) => \A i \in 1..Len(ls) :
     LET raw == Normal(Source[i]) IN
     Written(ls[i]) \in IF IsFixed(ls[i]) /\ IsText(ls[i])
                        THEN UNION {Realign(e) : e \in Explicit(raw)} ELSE Explicit(raw)

\* blanks separate, they are not part of the text; text is never blank
FieldShape == LET ls == ReadLines(Form, Lc, Source) IN
  Accepted(ls) => \A i \in 1..Len(ls) : LET l == ls[i] IN
    /\ SkipIn(l.ls, 1, Spaces) > Len(l.ls) /\ SkipIn(l.rs, 1, Spaces) > Len(l.rs)
    /\ IsText(l) => \/ l.rt = "" \/ Ch(l.rt, 1) \in {"!", "&"}
                    \/ (Lc > 0 /\ Ch(l.rt, SkipIn(l.rt, 1, Blanks)) \in {"!", "&"})
    /\ ~IsText(l) => l.mt = "" /\ l.od = ""

\* the character context after a line is the parity of the quotes of the statement so far
RECURSIVE QuoteState(_, _, _)
QuoteState(s, i, q) == IF i > Len(s) THEN q
  ELSE LET c == Ch(s, i) IN
       QuoteState(s, i + 1, IF q = "" THEN (IF c \in Quotes THEN c ELSE "")
                            ELSE IF c = q THEN "" ELSE q)
RECURSIVE Mains(_, _, _)
Mains(ls, i, j) == IF i > j THEN "" ELSE ls[i].mt \o Mains(ls, i + 1, j)
Context == LET ls == ReadLines(Form, Lc, Source)
               gs == Groups(ls) IN
  Specified(ls) => \A g \in 1..Len(gs) : \A j \in gs[g][1]..gs[g][2] :
     IsText(ls[j]) => ls[j].od = QuoteState(Mains(ls, gs[g][1], j), 1, "")

\* the logical lines tile the file; comments and blanks inside a statement stay in it
Tiling == LET ls == ReadLines(Form, Lc, Source)
              gs == Groups(ls) IN
  Accepted(ls) =>
  /\ gs[1][1] = 1 /\ gs[Len(gs)][2] = Len(ls)
  /\ \A g \in 1..Len(gs) : gs[g][1] <= gs[g][2]
  /\ \A g \in 1..Len(gs) - 1 : gs[g + 1][1] = gs[g][2] + 1
  /\ WellFormed(ls) => \A g \in 1..Len(gs) :
       IsText(ls[gs[g][1]]) => \A j \in gs[g][1]..gs[g][2] : IsText(ls[j]) \/ IsTrivial(ls[j])

\* every token is the text at its position, and only blanks lie between tokens
TokenText == LET ls == ReadLines(Form, Lc, Source) IN
  Specified(ls) => LET lls == LogicalLines(Form, Lc, Source) IN
  \A g \in 1..Len(lls) : LET ts == lls[g].toks lay == lls[g].layout IN
  /\ \A k \in 1..Len(ts) :
       /\ ts[k].ml = ts[k].el => SubSeq(lay[ts[k].ml + 1].mt, ts[k].mc + 1, ts[k].ec) = ts[k].t
       /\ Ch(lay[ts[k].ml + 1].mt, ts[k].mc + 1) = Ch(ts[k].t, 1)
       /\ Ch(lay[ts[k].el + 1].mt, ts[k].ec) = Ch(ts[k].t, Len(ts[k].t))
       /\ Ch(Normal(Source[ts[k].l]), ts[k].c) = Ch(ts[k].t, 1)
  /\ \A k \in 1..Len(ts) - 1 : \/ ts[k + 1].ml > ts[k].el
                               \/ ts[k + 1].ml = ts[k].el /\ ts[k + 1].mc >= ts[k].ec
RECURSIVE NonBlank(_, _)
NonBlank(s, i) == IF i > Len(s) THEN "" ELSE
                  (IF Ch(s, i) \in Spaces THEN "" ELSE Ch(s, i)) \o NonBlank(s, i + 1)
RECURSIVE TokCat(_, _)
TokCat(ts, k) == IF k > Len(ts) THEN "" ELSE ts[k].t \o TokCat(ts, k + 1)
TokenCover == LET ls == ReadLines(Form, Lc, Source) IN
  Specified(ls) => LET lls == LogicalLines(Form, Lc, Source) IN
  \A g \in 1..Len(lls) :
  NonBlank(TokCat(lls[g].toks, 1), 1) = NonBlank(Mains(lls[g].layout, 1, Len(lls[g].layout)), 1)

\* statements and semicolons tile the tokens
StmtCover == LET ls == ReadLines(Form, Lc, Source) IN
  Specified(ls) => LET lls == LogicalLines(Form, Lc, Source)
                       fs  == FileStmts(lls) IN
  /\ \A g \in 1..Len(lls) : LET ts == lls[g].toks st == lls[g].st IN
     /\ \A j \in 1..Len(st) : st[j][1] < st[j][2]
     /\ \A j \in 1..Len(st) - 1 : st[j][2] < st[j + 1][1]
     /\ \A k \in 1..Len(ts) : (ts[k].k = ";") = (~ \E j \in 1..Len(st) : st[j][1] < k /\ k <= st[j][2])
  /\ \A j \in 1..Len(fs) :
     /\ fs[j].label # 0 => fs[j].comp <= 1 /\ fs[j].label = lls[fs[j].ll + 1].label
     /\ fs[j].comp = 0 <=> Len(lls[fs[j].ll + 1].st) = 1

\* a comment or blank line inside a continued statement changes no token
Plain(ts) == [k \in 1..Len(ts) |-> <<ts[k].t, ts[k].k>>]
TriviaInside == LET ls == ReadLines(Form, Lc, Source) IN
  Specified(ls) => LET lls == LogicalLines(Form, Lc, Source) IN
  \A g \in 1..Len(lls) : LET lay == lls[g].layout IN
  IsText(lay[1]) =>
  \A j \in 1..Len(lay) - 1 : \A w \in {"", "! '"} :
    LET src == SubSeq(Source, 1, lls[g].n1 + j - 1) \o <<w>> \o From(Source, lls[g].n1 + j)
        new == LogicalLines(Form, Lc, src)
    IN Len(new) = Len(lls) /\ Plain(new[g].toks) = Plain(lls[g].toks)

\* a logical line reads the same whatever lines are before and after it
Locality == LET ls == ReadLines(Form, Lc, Source) IN
  Specified(ls) => LET lls == LogicalLines(Form, Lc, Source) IN
  \A g \in 1..Len(lls) :
  LET alone == LogicalLines(Form, Lc, SubSeq(Source, lls[g].n1, lls[g].n1 + Len(lls[g].layout) - 1))
  IN IsText(lls[g].layout[1]) => Len(alone) = 1 /\ Plain(alone[1].toks) = Plain(lls[g].toks)

EmitCase == Emit => PrintT("CASE " \o ToJson([form |-> Form, lc |-> Lc, lines |-> Source]))
=================================================================================
