------------------------------ MODULE MC_LabelStack ------------------------------
(* Explores LabelStack: every history up to a depth, or (Mode "tour") every transition   *)
(* of the state graph, each behind a shortest history that reaches it, or (Mode    *)
(* "walk") random histories.  Explored histories are emitted, to be replayed into  *)
(* the implementation.  Written by lib/mkmachine.py.                               *)
EXTENDS LabelStack, Json, Randomization
CONSTANTS Depth, Mode
VARIABLES s, hist, done
Init == s = S0 /\ hist = <<>> /\ done = FALSE
Enabled(x) == Ops(x)
Chosen(x) == IF Mode = "walk" THEN RandomSubset(1, Enabled(x)) ELSE Enabled(x)
Say(h) == PrintT("CASE " \o ToJson([ops |-> h]))
Do == /\ Len(hist) < Depth
      /\ \E op \in Chosen(s) :
           LET t == Step(s, op) h == Append(hist, op) IN
           /\ Assert(StepOK(s, op, t), <<"step property", s, op, t>>)
           /\ s' = t /\ hist' = h /\ done' = FALSE
           /\ Mode = "tour" => Say(h)
End == /\ Mode # "tour" /\ Len(hist) = Depth /\ ~done
       /\ done' = TRUE /\ s' = s /\ hist' = hist
       /\ Say(hist)
Next == Do \/ End
Spec == Init /\ [][Next]_<<s, hist, done>>
CoreView == Core(s)
ShapeInv == Shape(s)
=============================================================================
