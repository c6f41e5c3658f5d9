----------------------------- MODULE PegMachine -----------------------------
(* The parser as a transition system.  One action per thing the parser can do
   next; the control state is an expression to match, an answer going back to
   the construct that asked for it, or the end.

   The configuration being parsed (rules, text, debug or not) is c; what c looks
   like is up to the instantiating module.                                    *)
EXTENDS PegBase

CONSTANTS RulesOf(_), TextOf(_), DebugOf(_)

VARIABLES
    c,      \* what is being parsed
    m,      \* mode: "eval" (match e from st), "ok" (st, ns is the answer),
            \*       "fail" (f is the answer), "done"
    e,      \* the expression to match
    st,     \* the status it starts from or the one reached
    ns,     \* nodes produced, with m = "ok"
    f,      \* the failure, with m = "fail"; NONE or the error, with m = "done"
    stack,  \* the constructs waiting for an answer
    seen    \* history: rare events of this run, only observed

vars == << c, m, e, st, ns, f, stack, seen >>

R == RulesOf(c)
T == TextOf(c)

NOE == [k |-> "none"]

\* frames
SeqFrame(es, i, acc)         == [k |-> "seq", es |-> es, i |-> i, acc |-> acc]
OrFrame(es, i, s, best)      == [k |-> "or", es |-> es, i |-> i, s |-> s, best |-> best]
NotFrame(s)                  == [k |-> "not", s |-> s]
RepFrame(x, cnt, s, acc)     == [k |-> "rep", x |-> x, cnt |-> cnt, s |-> s, acc |-> acc]
RuleFrame(nm, n)             == [k |-> "rule", nm |-> nm, n |-> n]

Top == Last(stack)
Pop == Front(stack)

\* ---- how a step ends
Match(x, s, stk)  == m' = "eval" /\ e' = x /\ st' = s /\ stack' = stk /\ UNCHANGED << c, ns, f, seen >>
Answer(s, nodes, stk) == m' = "ok" /\ e' = NOE /\ st' = s /\ ns' = nodes /\ stack' = stk /\ UNCHANGED << c, f, seen >>
Fail(fl, stk)     == m' = "fail" /\ e' = NOE /\ f' = fl /\ ns' = << >> /\ stack' = stk /\ UNCHANGED << c, st, seen >>
End(fl, nodes)    == m' = "done" /\ e' = NOE /\ f' = fl /\ ns' = nodes /\ UNCHANGED << c, st, stack, seen >>

Start(cfg) ==
    /\ c = cfg /\ m = "eval" /\ e = Ref("main") /\ st = Status0
    /\ ns = << >> /\ f = NONE /\ stack = << >> /\ seen = {}

Eval(kind)    == m = "eval" /\ e.k = kind
Back(kind)    == m = "ok" /\ stack # << >> /\ Top.k = kind
Failing(kind) == m = "fail" /\ stack # << >> /\ Top.k = kind

\* ---- terminals
MatchTerminal ==
    /\ m = "eval" /\ e.k \in Terminals
    /\ LET a == AtomMatch(T, st.n, e) IN
       /\ a.ok
       /\ Answer([st EXCEPT !.n = a.n], << AtomNode(T, st.n, a.n, e) >>, stack)

TerminalFails ==
    /\ m = "eval" /\ e.k \in Terminals
    /\ LET a == AtomMatch(T, st.n, e) IN
       /\ ~a.ok
       /\ Fail(AtomFailure(a.n, e, st.walk), stack)

\* ---- rules
Walked(nm) == IF DebugOf(c) THEN [st EXCEPT !.walk = Append(@, nm)] ELSE st
\* being entered again with nothing consumed since
Looping(nm) == \E i \in DOMAIN stack : stack[i].k = "rule" /\ stack[i].n = st.n /\ stack[i].nm = nm

MissingRule ==
    /\ Eval("ref") /\ e.n \notin DOMAIN R
    /\ Fail(Failure("missing", e.n, st.n, "critical", Walked(e.n).walk), stack)

LeftRecursion ==
    /\ Eval("ref") /\ e.n \in DOMAIN R /\ Looping(e.n)
    /\ Fail(Failure("leftrec", e.n, st.n, "critical", Walked(e.n).walk), stack)

EnterRule ==
    /\ Eval("ref") /\ e.n \in DOMAIN R /\ ~Looping(e.n)
    /\ Match(R[e.n], Walked(e.n), Append(stack, RuleFrame(e.n, st.n)))

LeaveRule    == Back("rule") /\ Answer(st, << Rule(Top.nm, ns) >>, Pop)
AbandonRule  == Failing("rule") /\ Fail(f, Pop)

\* ---- sequences
EmptySeq   == Eval("and") /\ e.es = << >> /\ Answer(st, << >>, stack)
EnterSeq   == Eval("and") /\ e.es # << >> /\ Match(e.es[1], st, Append(stack, SeqFrame(e.es, 1, << >>)))
NextInSeq  == /\ Back("seq") /\ Top.i < Len(Top.es)
              /\ Match(Top.es[Top.i + 1], st, Append(Pop, SeqFrame(Top.es, Top.i + 1, Top.acc \o ns)))
LeaveSeq   == Back("seq") /\ Top.i = Len(Top.es) /\ Answer(st, Top.acc \o ns, Pop)
AbandonSeq == Failing("seq") /\ Fail(f, Pop)

\* ---- choices
EmptyChoice  == Eval("or") /\ e.es = << >> /\ Fail(Failure("nochoice", << >>, st.n, "normal", st.walk), stack)
EnterChoice  == Eval("or") /\ e.es # << >> /\ Match(e.es[1], st, Append(stack, OrFrame(e.es, 1, st, NONE)))
CommitChoice == Back("or") /\ Answer(st, ns, Pop)
NextChoice   == /\ Failing("or") /\ ~Critical(f) /\ Top.i < Len(Top.es)
                /\ Match(Top.es[Top.i + 1], Top.s, Append(Pop, OrFrame(Top.es, Top.i + 1, Top.s, Deeper(Top.best, f))))
ChoiceFails  == Failing("or") /\ ~Critical(f) /\ Top.i = Len(Top.es) /\ Fail(Deeper(Top.best, f), Pop)
ChoiceAborts == Failing("or") /\ Critical(f) /\ Fail(f, Pop)

\* ---- negative lookahead
EnterNot == Eval("not") /\ Match(e.e, st, Append(stack, NotFrame(st)))
NotFails == Back("not") /\ Fail(Failure("not", << >>, Top.s.n, "normal", Top.s.walk), Pop)
NotHolds == Failing("not") /\ Answer(Top.s, << >>, Pop)

\* ---- repetitions
RepNone   == Eval("rep") /\ e.hi = 0 /\ Answer(st, << >>, stack)
EnterRep  == Eval("rep") /\ e.hi # 0 /\ Match(e.e, st, Append(stack, RepFrame(e, 0, st, << >>)))
Idle      == Top.x.hi = INF /\ Top.cnt >= Top.x.lo /\ st.n = Top.s.n
RepIdle   == /\ Back("rep") /\ Idle
             /\ m' = "ok" /\ e' = NOE /\ st' = Top.s /\ ns' = Top.acc /\ stack' = Pop
             /\ seen' = seen \cup {"idle"} /\ UNCHANGED << c, f >>
RepAgain  == /\ Back("rep") /\ ~Idle /\ Top.cnt + 1 # Top.x.hi
             /\ Match(Top.x.e, st, Append(Pop, RepFrame(Top.x, Top.cnt + 1, st, Top.acc \o ns)))
RepFull   == Back("rep") /\ ~Idle /\ Top.cnt + 1 = Top.x.hi /\ Answer(st, Top.acc \o ns, Pop)
RepStops  == /\ Failing("rep") /\ ~Critical(f) /\ Top.cnt >= Top.x.lo
             /\ Answer([Top.s EXCEPT !.pot = f], Top.acc, Pop)
RepUnmet  == Failing("rep") /\ ~Critical(f) /\ Top.cnt < Top.x.lo /\ Fail(f, Pop)
RepAborts == Failing("rep") /\ Critical(f) /\ Fail(f, Pop)

\* ---- the end
Accept  == m = "ok" /\ stack = << >> /\ st.n = Len(T) /\ End(NONE, ns)
NotAll  == m = "ok" /\ stack = << >> /\ st.n < Len(T) /\ End(Leftover(st), << >>)
Reject  == m = "fail" /\ stack = << >> /\ End(f, << >>)

Next ==
    \/ MatchTerminal \/ TerminalFails
    \/ MissingRule \/ LeftRecursion \/ EnterRule \/ LeaveRule \/ AbandonRule
    \/ EmptySeq \/ EnterSeq \/ NextInSeq \/ LeaveSeq \/ AbandonSeq
    \/ EmptyChoice \/ EnterChoice \/ CommitChoice \/ NextChoice \/ ChoiceFails \/ ChoiceAborts
    \/ EnterNot \/ NotFails \/ NotHolds
    \/ RepNone \/ EnterRep \/ RepIdle \/ RepAgain \/ RepFull \/ RepStops \/ RepUnmet \/ RepAborts
    \/ Accept \/ NotAll \/ Reject

\* the outcome, with m = "done"
Accepted == f.d = "none"
Outcome  == IF Accepted THEN [ok |-> TRUE, ast |-> ns[1]] ELSE [ok |-> FALSE, f |-> f]
=============================================================================
