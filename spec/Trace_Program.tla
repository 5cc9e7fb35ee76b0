------------------------------ MODULE Trace_Program ------------------------------
(* Validates recorded parses against Program: a program is accepted exactly if the   *)
(* specification accepts its statements, and the tree is the one it stands for.       *)
EXTENDS Program, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES idx, bad
RECURSIVE Run(_, _, _)
Run(x0, h, i) == CHOOSE r \in {IF i > Len(h) THEN x ELSE Run(Step(x, h[i]), h, i + 1) : x \in {x0}} : TRUE
\* where two trees differ
RECURSIVE Diff(_, _)
Diff(a, b) ==
  IF a = b THEN ""
  ELSE IF a.t # b.t \/ a.s # b.s THEN "specified " \o a.t \o " " \o ToString(a.s) \o ", found " \o b.t \o " " \o ToString(b.s)
  ELSE IF Len(a.k) # Len(b.k) THEN a.t \o ": specified " \o ToString([i \in 1..Len(a.k) |-> a.k[i].t]) \o ", found " \o ToString([i \in 1..Len(b.k) |-> b.k[i].t])
  ELSE IF \E i \in 1..Len(a.k) : a.k[i] # b.k[i]
       THEN a.t \o " > " \o Diff(a.k[CHOOSE i \in 1..Len(a.k) : a.k[i] # b.k[i]], b.k[CHOOSE i \in 1..Len(a.k) : a.k[i] # b.k[i]])
  ELSE a.t \o ": specified statements " \o ToString(<<a.b, a.e, a.n>>) \o ", found " \o ToString(<<b.b, b.e, b.n>>)
Judge(c) ==
  LET s == Run(S0, c.ops, 1) acc == Accepts(s) o == c.obs IN
  IF "died" \in DOMAIN o THEN "died: " \o o.died
  ELSE IF ~o.read \/ o.n # Len(c.ops) THEN "read as " \o ToString(o.n) \o " statements"
  ELSE IF acc # o.ok THEN IF acc THEN "a program was refused" ELSE "accepted what is not a program"
  ELSE IF ~acc THEN (IF o.tree0 THEN "" ELSE "a tree for what was refused")
  ELSE IF ~o.hooks THEN "statements not linked to their nodes"
  ELSE IF ~o.trees THEN "a statement whose own tree is missing or of another kind"
  ELSE Diff(Tree(s), o.tree)
Init == idx = 1 /\ bad = 0
Next == /\ idx <= Len(Trace)
        /\ LET v == Judge(Trace[idx])
           IN IF v = "" THEN bad' = bad
              ELSE /\ PrintT("REJECT " \o ToString(Trace[idx].id) \o " :: " \o v)
                   /\ bad' = bad + 1
        /\ idx' = idx + 1
=================================================================================
