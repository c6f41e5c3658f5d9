----------------------------- MODULE TraceSets -----------------------------
(* Histories recorded from the code, against RuleSets.  A case: id, steps: a, r and what
   goes with it, and shown: after new, macro, read, add and merge the rules of the
   register, a list of << name, expression >>; after parse two answers, of the register and of a new rule set with the same bindings (whether
   they are right is up to TraceParse).  What read gives is up to TraceFront, so what is
   shown is taken.                                                            *)
EXTENDS RuleSets, Json, IOUtils

VARIABLES i, k, regs, right
Cases == ndJsonDeserialize(IOEnv.TRACE)
Steps == Cases[i].steps
S     == Steps[k + 1]
Put(r, s) == [x \in DOMAIN regs \cup {r} |-> IF x = r THEN s ELSE regs[x]]
Next1 ==
    CASE S.a \in {"new", "macro"} -> Put(S.r, Created(S.rules))
      [] S.a = "read"  -> Put(S.r, Created(S.shown))
      [] S.a = "add"   -> Put(S.r, Added(regs[S.r], S.name, S.e))
      [] S.a = "merge" -> Put(S.r, Merged(regs[S.r], regs[S.s]))
      [] S.a = "parse" -> regs
\* exactly these rules, each once
Holds(ps, s) == Len(ps) = Cardinality(DOMAIN s) /\ \A x \in DOMAIN ps : ps[x][1] \in DOMAIN s /\ ps[x][2] = s[ps[x][1]] /\ \A y \in DOMAIN ps : ps[x][1] = ps[y][1] => x = y
Agrees == /\ "shown" \in DOMAIN S
          /\ IF S.a = "parse" THEN S.shown.res = S.shown.fresh ELSE Holds(S.shown, Next1[S.r])

TraceInit == \E x \in 1..Len(Cases) : i = x /\ k = 0 /\ regs = << >> /\ right = TRUE
Go == /\ right /\ k < Len(Steps)
      /\ right' = Agrees
      /\ regs' = Next1
      /\ k' = k + 1 /\ i' = i
      /\ IF Agrees /\ k' < Len(Steps) THEN TRUE
         ELSE PrintT(<< "JUDGED", Cases[i].id, k', S.a, {}, IF Agrees THEN {} ELSE {S.a} >>)
TraceSpec == TraceInit /\ [][Go]_<< i, k, regs, right >>
View == << i, k >>
=============================================================================
