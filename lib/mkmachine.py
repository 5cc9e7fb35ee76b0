#!/usr/bin/env python3
"""Writes the exploration module MC_X and the trace module Trace_X of a state-machine specification X.
The results are committed; run again after adding a machine."""
import os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/spec/"
MC = '''------------------------------ MODULE MC_%(X)s ------------------------------
(* Explores %(X)s: every history up to a depth, or (Mode "tour") every transition   *)
(* of the state graph, each behind a shortest history that reaches it, or (Mode    *)
(* "walk") random histories.  Explored histories are emitted, to be replayed into  *)
(* the implementation.  Written by lib/mkmachine.py.                               *)
EXTENDS %(X)s, Json, Randomization
CONSTANTS Depth, Mode
VARIABLES s, hist, done
Init == s = S0 /\\ hist = <<>> /\\ done = FALSE
Enabled(x) == %(en)s
Chosen(x) == IF Mode = "walk" THEN RandomSubset(1, Enabled(x)) ELSE Enabled(x)
Say(h) == PrintT("CASE " \\o ToJson([ops |-> h]))
Do == /\\ Len(hist) < Depth
      /\\ \\E op \\in Chosen(s) :
           LET t == Step(s, op) h == Append(hist, op) IN
           /\\ Assert(StepOK(s, op, t), <<"step property", s, op, t>>)
           /\\ s' = t /\\ hist' = h /\\ done' = FALSE
           /\\ Mode = "tour" => Say(h)
End == /\\ Mode # "tour" /\\ Len(hist) = Depth /\\ ~done
       /\\ done' = TRUE /\\ s' = s /\\ hist' = hist
       /\\ Say(hist)
Next == Do \\/ End
Spec == Init /\\ [][Next]_<<s, hist, done>>
CoreView == Core(s)
%(inv)s
=============================================================================
'''
TR = '''----------------------------- MODULE Trace_%(X)s -----------------------------
(* Validates recorded runs of the implementation against %(X)s: each entry is the   *)
(* sequence of operations applied and what was observed after every one of them.   *)
(* Written by lib/mkmachine.py.                                                    *)
EXTENDS %(X)s, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES idx, bad
RECURSIVE Walk(_, _, _)
Walk(s, c, i) ==
  IF i > Len(c.ops) THEN ""
  ELSE LET t == Step(s, c.ops[i]) IN
       IF ~Same(t, c.obs.v[i])
       THEN "after operation " \\o ToString(i) \\o " " \\o ToString(c.ops[i]) \\o ": the code shows " \\o ToString(c.obs.v[i])
            \\o " and the specification " \\o ToString(t)
       ELSE Walk(t, c, i + 1)
Judge(c) == IF "died" \\in DOMAIN c.obs THEN "died: " \\o c.obs.died ELSE Walk(S0, c, 1)
Init == idx = 1 /\\ bad = 0
Next == /\\ idx <= Len(Trace)
        /\\ LET v == Judge(Trace[idx])
           IN IF v = "" THEN bad' = bad
              ELSE /\\ PrintT("REJECT " \\o ToString(Trace[idx].id) \\o " :: " \\o v)
                   /\\ bad' = bad + 1
        /\\ idx' = idx + 1
=============================================================================
'''
LEGAL = "{op \\in Ops(x) : Legal(x, op)}"
MACHINES = [
  ("SafeList", "Ops(x)", "SlotOnceInv == SlotOnce(s)"),
  ("SlRange", LEGAL, "InListInv == InList(s)"),
  ("LabelStack", "Ops(x)", "ShapeInv == Shape(s)"),
  ("RangePart", LEGAL, "NoLossInv == NoLoss(s)"),
  ("FTree", LEGAL, "MarkOnceInv == MarkOnce(s)"),
]
if __name__ == "__main__":
  for x, en, inv in MACHINES:
    open(f"{D}MC_{x}.tla", "w").write(MC % dict(X=x, en=en, inv=inv))
    open(f"{D}Trace_{x}.tla", "w").write(TR % dict(X=x))
