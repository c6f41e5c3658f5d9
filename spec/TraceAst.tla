------------------------------ MODULE TraceAst ------------------------------
(* Transformations recorded from the code, against AstOps.  A case: id, tree, steps
   (f, names, r: what came out, after: the tree it was applied to, afterwards).  Each
   step is applied to what the one before gave.                               *)
EXTENDS AstOps, Json, IOUtils

VARIABLES i, k, t
Cases == ndJsonDeserialize(IOEnv.TRACE)
Steps == Cases[i].steps
Step  == Steps[k + 1]

Result(f, tr, N) == CASE f = "prune" -> Prune(tr, N) [] f = "pass" -> PassThrough(tr, N)
                      [] f = "compact" -> Compact(tr) [] f = "flatten" -> Flatten(tr)
Good == "r" \in DOMAIN Step /\ Step.r = Result(Step.f, t, Range(Step.names)) /\ Step.after = t

TraceInit == \E x \in 1..Len(Cases) : i = x /\ k = 0 /\ t = Cases[x].tree
Apply(f) ==
    /\ k < Len(Steps) /\ Step.f = f
    /\ PrintT(<< "JUDGED", Cases[i].id, k, f, {}, IF Good THEN {} ELSE {f} >>)
    /\ k' = k + 1 /\ i' = i
    /\ t' = IF f = "flatten" THEN t ELSE Result(f, t, Range(Step.names))
\* after a step that went wrong, what follows says nothing
Wrong == k > 0 /\ LET s == Steps[k] IN s.f # "flatten" /\ ~("r" \in DOMAIN s /\ s.r = t)
TraceNext == ~Wrong /\ (Apply("prune") \/ Apply("pass") \/ Apply("compact") \/ Apply("flatten"))
TraceSpec == TraceInit /\ [][TraceNext]_<< i, k, t >>
View == << i, k >>
=============================================================================
