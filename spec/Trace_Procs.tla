------------------------------- MODULE Trace_Procs -------------------------------
(* Validates recorded visits and edits of procedures against Procs.                   *)
EXTENDS Procs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES idx, bad
Str(x) == ToString(x)
RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, i) == IF i > Len(a) THEN "" ELSE IF a[i] # b[i] THEN "procedure " \o Str(i) \o ": specified " \o Str(a[i]) \o ", found " \o Str(b[i]) ELSE FirstDiff(a, b, i + 1)
JudgeVisit(v, h, yes) ==
  LET ps == Procedures(h) IN
  IF Len(v.procs) # Len(ps) THEN Str(Len(ps)) \o " procedures, " \o Str(Len(v.procs)) \o " visited"
  ELSE IF v.ret # (yes \in 1..Len(ps)) THEN "visit() answered " \o Str(v.ret)
  ELSE FirstDiff(ps, v.procs, 1)
Texts(h) == [i \in 1..Len(h) |-> [q |-> QText(h[i]), l |-> h[i].l]]
RECURSIVE JudgeEdits(_, _, _, _), JudgeEdit(_, _, _, _)
JudgeEdits(s0, es, os, i) == CHOOSE r \in {IF i > Len(es) THEN <<"", s>> ELSE JudgeEdit(s, es, os, i) : s \in {s0}} : TRUE
JudgeEdit(s, es, os, i) ==
  CHOOSE r \in {IF o.res # t.res THEN <<es[i].o \o ": answered " \o o.res \o " instead of " \o t.res, t>>
                ELSE IF o.texts # Texts(t.h) THEN <<es[i].o \o ": statements are " \o Str(o.texts) \o " instead of " \o Str(Texts(t.h)), t>>
                ELSE IF o.p # Live(t) THEN <<es[i].o \o ": the procedure is " \o Str(o.p) \o " instead of " \o Str(Live(t)), t>>
                ELSE JudgeEdits(t, es, os, i + 1) : t \in {Edit(s, es[i])}, o \in {os[i]}} : TRUE
Judge(c) ==
  LET o == c.obs v0 == JudgeVisit(o.v0, c.ops, c.yes) IN
  IF "died" \in DOMAIN o THEN "died: " \o o.died
  ELSE IF ~o.read \/ ~o.ok THEN "not read"
  ELSE IF v0 # "" THEN v0
  ELSE IF "edits" \notin DOMAIN c THEN ""
  ELSE IF o.v0.procs = <<>> THEN ""
  ELSE IF "es" \notin DOMAIN o THEN "not taken in"
  ELSE LET j == JudgeEdits(EState(c.ops, (c.proc % Len(o.v0.procs)) + 1), c.edits, o.es, 1) h == j[2].h acc == Accepts(Parse(h)) IN
       IF j[1] # "" THEN j[1]
       ELSE IF o.notes # 0 THEN "comments lost or added"
       ELSE IF ~o.reread \/ o.texts # Texts(h) THEN "what is written reads as " \o Str(o.texts) \o " instead of " \o Str(Texts(h))
       ELSE IF o.ok1 # acc THEN (IF acc THEN "what is written is refused" ELSE "what is written is accepted")
       ELSE IF ~acc THEN "" ELSE JudgeVisit(o.v1, h, 0)
Init == idx = 1 /\ bad = 0
Next == /\ idx <= Len(Trace)
        /\ LET v == Judge(Trace[idx])
           IN IF v = "" THEN bad' = bad
              ELSE /\ PrintT("REJECT " \o ToString(Trace[idx].id) \o " :: " \o v)
                   /\ bad' = bad + 1
        /\ idx' = idx + 1
=================================================================================
