----------------------------- MODULE TraceWalk -----------------------------
(* Walks recorded from the code, against AstOps.  A case: id, flat, nodes, steps (op, a,
   enter, and what the code gave: ok, and got and rest when ok), after (the list walked,
   afterwards).                                                               *)
EXTENDS AstOps, Json, IOUtils

VARIABLES i, k, ws, right
Cases == ndJsonDeserialize(IOEnv.TRACE)
Steps == Cases[i].steps
Step  == Steps[k + 1]
R     == IF Cases[i].flat THEN FlatWalk(Step.op, Step.a, ws) ELSE TreeWalk(Step.op, Step.a, ws)
Given == DOMAIN Step
Agrees == /\ "ok" \in Given /\ Step.ok = R.ok
          /\ R.ok => Step.got = R.got /\ Step.rest = R.rest

TraceInit == \E x \in 1..Len(Cases) : i = x /\ k = 0 /\ ws = Cases[x].nodes /\ right = TRUE
Go == /\ right /\ k < Len(Steps)
      /\ right' = Agrees
      /\ ws' = (IF Step.enter /\ R.ok THEN R.got ELSE R.rest)
      /\ k' = k + 1 /\ i' = i
      /\ IF Agrees /\ k' < Len(Steps) THEN TRUE
         ELSE PrintT(<< "JUDGED", Cases[i].id, k', Step.op, {},
                        IF Agrees /\ Cases[i].after = Cases[i].nodes THEN {} ELSE {IF Agrees THEN "after" ELSE Step.op} >>)
TraceNext == Go
TraceSpec == TraceInit /\ [][TraceNext]_<< i, k, ws, right >>
View == << i, k >>
=============================================================================
