----------------------------- MODULE TraceErrors -----------------------------
(* Errors of the grammar reader recorded from the code.  A case: id, base (what the error was
   made of), begun (what the code shows of it) and steps: d, and what the code shows then.
   What is shown: over, base, print.  The parser's error of a base is one the code gave for
   a parse; whether it is right is up to TraceParse.                          *)
EXTENDS ErrorChain, Json, IOUtils

VARIABLES i, k, c, right
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case  == Cases[i]
Agrees(ch, s) == /\ s.over = ch.over
                 /\ s.base = ch.base
                 /\ s.print = Shown(ch)
Judge(n, ok, how) == IF ok /\ n < Len(Case.steps) THEN TRUE ELSE PrintT(<< "JUDGED", Case.id, n, how, {}, IF ok THEN {} ELSE {how} >>)
TraceInit == /\ \E x \in 1..Len(Cases) : i = x
             /\ k = 0
             /\ c = Begun(Case.base)
             /\ right = Agrees(c, Case.begun)
             /\ Judge(0, right, "begun")
Step == /\ right /\ k < Len(Case.steps)
        /\ c' = Pushed(c, Case.steps[k + 1].d)
        /\ right' = Agrees(c', Case.steps[k + 1].shown)
        /\ k' = k + 1 /\ i' = i
        /\ Judge(k', right', Case.steps[k + 1].a)
TraceSpec == TraceInit /\ [][Step]_<< i, k, c, right >>
View == << i, k >>
=============================================================================
