------------------------------- MODULE Trace_Edit --------------------------------
(* Validates recorded editing sessions against Edit: after every operation, what the *)
(* library shows in memory and what a fresh reading of the written file shows.       *)
EXTENDS Edit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES idx, bad
Say(i, op, what, o, t) == "after operation " \o ToString(i) \o " " \o ToString(op) \o ": " \o what \o ": the code shows "
                          \o ToString(o) \o " and the specification " \o ToString(t)
RECURSIVE Walk(_, _, _)
Walk(s, c, i) ==
  IF i > Len(c.ops) THEN ""
  ELSE LET op == c.ops[i] o == c.obs.v[i] IN
       IF NStmts(s) = 0 THEN ""
       ELSE IF o.done /\ ~Allowed(s, op) THEN ""          \* nothing is claimed from here on
       ELSE IF ~o.done /\ Must(s, op) THEN "operation " \o ToString(i) \o " was declined"
       ELSE LET t == Step(s, op, o.done) IN
            IF ~Starts(t) THEN ""
            ELSE IF o.done /\ o.r # Result(s, op) THEN Say(i, op, "result", o.r, Result(s, op))
            ELSE IF ~Shown(t, o.mem) THEN Say(i, op, "in memory", o.mem, t)
            ELSE IF ~Shown(t, o.re) THEN Say(i, op, "written and read again", o.re, t)
            ELSE IF ~o.pos THEN Say(i, op, "token positions", o.out, "")
            ELSE IF ~o.kinds THEN Say(i, op, "kinds of tokens", o.out, "")
            ELSE IF ~o.lead THEN Say(i, op, "indentation", o.out, "")
            ELSE Walk(t, c, i + 1)
Judge(c) ==
  IF ~Editable(c.form, c.lc, c.lines) THEN ""
  ELSE IF "died" \in DOMAIN c.obs THEN "died: " \o c.obs.died
  ELSE IF ~c.obs.ok THEN "refused"
  ELSE LET s == FileState(c.form, c.lc, c.lines) IN
       IF ~Shown(s, c.obs.v0) THEN "initially: the code shows " \o ToString(c.obs.v0) \o " and the specification " \o ToString(s)
       ELSE Walk(s, c, 1)
Init == idx = 1 /\ bad = 0
Next == /\ idx <= Len(Trace)
        /\ LET v == Judge(Trace[idx])
           IN IF v = "" THEN bad' = bad
              ELSE /\ PrintT("REJECT " \o ToString(Trace[idx].id) \o " :: " \o v)
                   /\ bad' = bad + 1
        /\ idx' = idx + 1
=================================================================================
