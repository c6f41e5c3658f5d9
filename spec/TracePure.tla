----------------------------- MODULE TracePure -----------------------------
(* Parses of the same things in different circumstances, recorded from the code.  A case:
   id, njobs, events: job, how, res; unchanged: whether the rule sets are what they were.
   memo is what each job gave the first time: every event of a job has to give that.
   (Whether it is right is up to TraceParse.)                                 *)
EXTENDS PegBase, Json, IOUtils

VARIABLES i, k, memo, right
Cases == ndJsonDeserialize(IOEnv.TRACE)
Events == Cases[i].events
E      == Events[k + 1]
Known  == E.job \in DOMAIN memo
Agrees == Known => memo[E.job] = E.res

TraceInit == \E x \in 1..Len(Cases) : i = x /\ k = 0 /\ memo = << >> /\ right = TRUE
Event ==
    /\ right /\ k < Len(Events)
    /\ right' = Agrees
    /\ memo' = IF Known THEN memo ELSE [x \in DOMAIN memo \cup {E.job} |-> IF x = E.job THEN E.res ELSE memo[x]]
    /\ k' = k + 1 /\ i' = i
    /\ IF Agrees /\ k' < Len(Events) THEN TRUE
       ELSE PrintT(<< "JUDGED", Cases[i].id, k', E.how, {}, IF Agrees THEN (IF Cases[i].unchanged THEN {} ELSE {"changed"}) ELSE {E.how} >>)
TraceSpec == TraceInit /\ [][Event]_<< i, k, memo, right >>
View == << i, k >>
=============================================================================
