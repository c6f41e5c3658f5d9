------------------------------- MODULE MCPure -------------------------------
(* Two threads parsing at the same time, one step of one or the other at a time, each
   job after job in any order; and what everybody got.  The jobs of a thread are texts
   with rule sets of their own or shared, registered in any order and with or without
   rules that nobody refers to.                                                *)
EXTENDS PegSem

CONSTANTS Jobs, Each        \* how many jobs each thread does
VARIABLES
    c1, m1, e1, st1, ns1, f1, stack1, seen1, left1,
    c2, m2, e2, st2, ns2, f2, stack2, seen2, left2,
    told     \* job -> what it gave, the first time
v1 == << c1, m1, e1, st1, ns1, f1, stack1, seen1 >>
v2 == << c2, m2, e2, st2, ns2, f2, stack2, seen2 >>
vars == << v1, left1, v2, left2, told >>

A == << 97 >>  B == << 98 >>
\* one set read by both, one with the same names and other rules, and the first with others nobody needs
Main  == And(<< Or(<< And(<< Lit(A), Ref("x") >>), Ref("x") >>), Rep(Lit(A), 0, INF) >>)
SetOf == [one   |-> [main |-> Main, x |-> Lit(B)],
          other |-> [main |-> Main, x |-> And(<< Not(Lit(B)), Dot >>)],
          more  |-> [main |-> Main, x |-> Lit(B), y |-> ErrX(A), z |-> Ref("z")]]
Job(s, t, d) == [s |-> s, t |-> t, d |-> d]
AllJobs == {Job(s, t, d) : s \in {"one", "other", "more"}, t \in {A, A \o B, B \o A \o A, A \o A \o B}, d \in BOOLEAN}
FewJobs == {Job("one", A \o B, FALSE), Job("one", A \o A \o B, TRUE), Job("other", A \o B, FALSE), Job("more", A \o B, FALSE), Job("more", A \o A \o B, TRUE)}
JobsOf(w) == IF w = "few" THEN FewJobs ELSE AllJobs

JRules(j) == SetOf[j.s]
JText(j)  == j.t
JDebug(j) == j.d
P1 == INSTANCE PegMachine WITH RulesOf <- JRules, TextOf <- JText, DebugOf <- JDebug,
        c <- c1, m <- m1, e <- e1, st <- st1, ns <- ns1, f <- f1, stack <- stack1, seen <- seen1
P2 == INSTANCE PegMachine WITH RulesOf <- JRules, TextOf <- JText, DebugOf <- JDebug,
        c <- c2, m <- m2, e <- e2, st <- st2, ns <- ns2, f <- f2, stack <- stack2, seen <- seen2

Unknown == [k |-> "unknown"]
Key(j) == << j.s, j.t, j.d >>
Init == /\ \E j \in JobsOf(Jobs) : P1!Start(j)
        /\ \E j \in JobsOf(Jobs) : P2!Start(j)
        /\ left1 = Each - 1 /\ left2 = Each - 1 /\ told = << >>
Remember(j, o) == told' = [x \in DOMAIN told \cup {Key(j)} |-> IF x \in DOMAIN told THEN told[x] ELSE o]
\* a thread tells what it got and begins its next job
Again1 == /\ m1 = "done" /\ left1 > 0 /\ left1' = left1 - 1 /\ Remember(c1, P1!Outcome)
          /\ \E j \in JobsOf(Jobs) : c1' = j
          /\ m1' = "eval" /\ e1' = Ref("main") /\ st1' = Status0 /\ ns1' = << >> /\ f1' = NONE /\ stack1' = << >> /\ seen1' = {}
Again2 == /\ m2 = "done" /\ left2 > 0 /\ left2' = left2 - 1 /\ Remember(c2, P2!Outcome)
          /\ \E j \in JobsOf(Jobs) : c2' = j
          /\ m2' = "eval" /\ e2' = Ref("main") /\ st2' = Status0 /\ ns2' = << >> /\ f2' = NONE /\ stack2' = << >> /\ seen2' = {}
Next == \/ P1!Next /\ UNCHANGED << v2, left1, left2, told >>
        \/ P2!Next /\ UNCHANGED << v1, left1, left2, told >>
        \/ Again1 /\ UNCHANGED << v2, left2 >>
        \/ Again2 /\ UNCHANGED << v1, left1 >>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what holds ---- *)
Plain(fl) == [fl EXCEPT !.walk = << >>]
Right(j, o) == LET w == Meaning(SetOf[j.s], j.t) IN
               /\ o.ok = w.ok
               /\ o.ok => o.ast = w.ast
               /\ ~o.ok => o.f = IF j.d THEN w.f ELSE Plain(w.f)
\* whoever gets an answer gets the one, whatever has been going on
SameForAll == /\ m1 = "done" => Right(c1, P1!Outcome) /\ (Key(c1) \in DOMAIN told => told[Key(c1)] = P1!Outcome)
              /\ m2 = "done" => Right(c2, P2!Outcome) /\ (Key(c2) \in DOMAIN told => told[Key(c2)] = P2!Outcome)
\* rules nobody refers to make no difference
Unrelated == \A t \in {j.t : j \in JobsOf(Jobs)} : Meaning(SetOf["more"], t) = Meaning(SetOf["one"], t)
BothEnd == <>(m1 = "done" /\ m2 = "done" /\ left1 = 0 /\ left2 = 0)
=============================================================================
