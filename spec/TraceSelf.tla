----------------------------- MODULE TraceSelf -----------------------------
(* The program that prints the rules of grammars, and what it printed installed in their
   place, recorded from the code.  A case is what one text gave, or what was printed, from
   one installation to the next: id, events: [by |-> which, res |-> what it gave].
   res: [k |-> "rules", rules] (pairs << name, expression >>) or an error.
   memo is what the first gave; every other has to give the same.               *)
EXTENDS PegBase, Json, IOUtils

VARIABLES i, k, memo
Cases == ndJsonDeserialize(IOEnv.TRACE)
Events == Cases[i].events
E      == Events[k + 1]

SameRules(ps, qs) ==
    /\ Len(ps) = Len(qs)
    /\ \A a \in DOMAIN ps : \E b \in DOMAIN qs : ps[a] = qs[b]
    /\ \A b \in DOMAIN qs : \E a \in DOMAIN ps : ps[a] = qs[b]
Same(x, y) == IF x.k = "rules" /\ y.k = "rules" THEN SameRules(x.rules, y.rules) ELSE x = y
Agrees == k = 0 \/ Same(memo, E.res)

TraceInit == i \in 1..Len(Cases) /\ k = 0 /\ memo = [k |-> "nothing"]
Event ==
    /\ k < Len(Events)
    /\ memo' = IF k = 0 THEN E.res ELSE memo
    /\ k' = (IF Agrees THEN k + 1 ELSE Len(Events)) /\ i' = i
    /\ IF Agrees /\ k' < Len(Events) THEN TRUE
       ELSE PrintT(<< "JUDGED", Cases[i].id, k', E.res.k, {}, IF Agrees THEN {} ELSE {E.by} >>)
TraceSpec == TraceInit /\ [][Event]_<< i, k, memo >>
View == << i, k >>
=============================================================================
