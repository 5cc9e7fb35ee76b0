----------------------------- MODULE Trace_LabelStack -----------------------------
(* Validates recorded runs of the implementation against LabelStack: each entry is the   *)
(* sequence of operations applied and what was observed after every one of them.   *)
(* Written by lib/mkmachine.py.                                                    *)
EXTENDS LabelStack, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES idx, bad
RECURSIVE Walk(_, _, _)
Walk(s, c, i) ==
  IF i > Len(c.ops) THEN ""
  ELSE LET t == Step(s, c.ops[i]) IN
       IF ~Same(t, c.obs.v[i])
       THEN "after operation " \o ToString(i) \o " " \o ToString(c.ops[i]) \o ": the code shows " \o ToString(c.obs.v[i])
            \o " and the specification " \o ToString(t)
       ELSE Walk(t, c, i + 1)
Judge(c) == IF "died" \in DOMAIN c.obs THEN "died: " \o c.obs.died ELSE Walk(S0, c, 1)
Init == idx = 1 /\ bad = 0
Next == /\ idx <= Len(Trace)
        /\ LET v == Judge(Trace[idx])
           IN IF v = "" THEN bad' = bad
              ELSE /\ PrintT("REJECT " \o ToString(Trace[idx].id) \o " :: " \o v)
                   /\ bad' = bad + 1
        /\ idx' = idx + 1
=============================================================================
