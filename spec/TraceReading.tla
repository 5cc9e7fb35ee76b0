------------------------------ MODULE TraceReading ------------------------------
(* Validates recorded readings of real sources by the implementation: each trace  *)
(* entry is [id, form, lc, lines, obs].  One step of this specification consumes   *)
(* one entry; entries the specification does not explain are reported.             *)
EXTENDS Reading, Json, IOUtils

CONSTANT Aspects     \* which parts of the observation are judged

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES idx, bad
vars == <<idx, bad>>

SameFields(l, o) == /\ l.lt = o.lt /\ l.ls = o.ls /\ l.mt = o.mt /\ l.rs = o.rs
                    /\ l.rt = o.rt
SameContext(l, o) == l.od = o.od

RECURSIVE Flatten(_, _)
Flatten(lls, i) == IF i > Len(lls) THEN <<>> ELSE lls[i].layout \o Flatten(lls, i + 1)

SameTok(t, o) == t.t = o.t /\ t.k = o.k
SamePos(t, o) == /\ t.l = o.l /\ t.c = o.c
                 /\ t.ml = o.ml /\ t.mc = o.mc /\ t.el = o.el /\ t.ec = o.ec
SpacesOK(ts, os) ==
  \A k \in 2..Len(ts) : /\ os[k].pre = os[k-1].post
                        /\ IF ts[k].same THEN os[k].pre = ts[k].gap
                           ELSE (os[k].pre = 0) = (ts[k].gap = 0)

Count(ts, kind) == Cardinality({i \in 1..Len(ts) : ts[i].k = kind})

\* "" if explained, else what is wrong
Judge(c) ==
  LET o   == c.obs
      ls  == ReadLines(c.form, c.lc, c.lines)
      ref == Len(ls) = 1 /\ ls[1] = Refused
      uns == Len(ls) > 0 /\ ls[Len(ls)] = Unspecified
      w   == WellFormed(ls)
  IN
  IF uns THEN ""
  ELSE IF "died" \in DOMAIN o THEN "died: " \o o.died
  ELSE IF ref THEN (IF o.ok THEN "accepted a source the specification refuses" ELSE "")
  ELSE IF ~o.ok THEN "refused a source the specification accepts"
  ELSE
  LET ol == Flatten(o.lines, 1)
      n  == Len(ls)
  IN
  IF Len(ol) # n \/ \E i \in 1..n : ol[i].n # i THEN "lines lost, repeated or reordered"
  ELSE IF "out" \in Aspects /\ o.out # [i \in 1..n |-> Written(ls[i])]
       THEN "written text differs from the source"
  ELSE IF "out" \in Aspects /\ \E i \in 1..n : ol[i].out # Written(ls[i])
       THEN "a line is not written as read"
  ELSE IF "fields" \in Aspects /\ \E i \in 1..n : ~SameFields(ls[i], ol[i])
       THEN "fields"
  ELSE IF "flags" \in Aspects /\ \E i \in 1..n : ls[i].fl # ol[i].fl THEN "classification"
  ELSE IF "context" \in Aspects /\ \E i \in 1..n : ~SameContext(ls[i], ol[i]) \/ ls[i].mt # ol[i].mt
       THEN "character context"
  ELSE IF Aspects \cap {"groups", "tokens", "pos", "stmts"} = {} \/ ~w THEN ""
  ELSE
  LET lls == LogicalLines(c.form, c.lc, c.lines)
      g   == Len(lls)
      sep == {i \in 1..g : Separated(lls[i].toks)}
  IN
  IF Len(o.lines) # g \/ \E i \in 1..g : \/ Len(o.lines[i].layout) # Len(lls[i].layout)
       THEN "grouping into logical lines"
  ELSE IF "groups" \in Aspects /\ \E i \in 1..g : \/ o.lines[i].cat # lls[i].cat
                                                 \/ o.lines[i].sup
       THEN "category of a logical line"
  ELSE IF "tokens" \in Aspects /\ \E i \in sep :
            \/ Len(o.lines[i].frag) # Len(lls[i].toks)
            \/ \E k \in 1..Len(lls[i].toks) : \/ ~SameTok(lls[i].toks[k], o.lines[i].frag[k])
                                             \/ o.lines[i].frag[k].lo # Lower(lls[i].toks[k].t)
       THEN "tokens"
  ELSE IF "pos" \in Aspects /\ \E i \in sep :
            \/ Len(o.lines[i].frag) # Len(lls[i].toks)
            \/ \E k \in 1..Len(lls[i].toks) : ~SamePos(lls[i].toks[k], o.lines[i].frag[k])
            \/ ~SpacesOK(lls[i].toks, o.lines[i].frag)
       THEN "token positions or spacing"
  ELSE IF "stmts" \in Aspects /\ \E i \in sep :
            \/ o.lines[i].st # lls[i].st
            \/ o.lines[i].label # lls[i].label
            \/ ~o.lines[i].has
            \/ o.lines[i].nsemi # Count(lls[i].toks, ";")
            \/ o.lines[i].emp # (Count(lls[i].toks, ";") > 0 /\ Count(lls[i].toks, ";") >= Len(lls[i].st))
       THEN "statements of a logical line"
  ELSE IF "stmts" \in Aspects /\ sep = 1..g THEN
       LET fs == FileStmts(lls)
       IN IF Len(fs) # Len(o.stmts) THEN "statement sequence"
          ELSE IF \E i \in 1..Len(fs) :
                    LET a == fs[i] b == o.stmts[i] IN
                    \/ a.ll # b.ll \/ a.b # b.b \/ a.e # b.e \/ a.label # b.label
                    \/ a.comp # b.comp \/ a.prefix # b.prefix
                    \/ b.line # lls[a.ll + 1].toks[a.b + 1].l
                    \/ b.col # lls[a.ll + 1].toks[a.b + 1].c
               THEN "statement (range, label, compound position or prefix)"
          ELSE ""
  ELSE ""

Init == idx = 1 /\ bad = 0
Next == /\ idx <= Len(Trace)
        /\ LET v == Judge(Trace[idx])
           IN IF v = "" THEN bad' = bad
              ELSE /\ PrintT("REJECT " \o ToString(Trace[idx].id) \o " :: " \o v)
                   /\ bad' = bad + 1
        /\ idx' = idx + 1
Spec == Init /\ [][Next]_vars
\* every entry was consumed
Consumed == TLCGet("queue") = 0 => TRUE
=================================================================================
