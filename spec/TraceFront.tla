----------------------------- MODULE TraceFront -----------------------------
(* Grammar texts read by the code, against the specification: the machine parses
   the text with MetaGrammar, and PegFront says which rules that is.

   A case: text, res.  res is
     [k |-> "rules", rules |-> << << name, expression >>, ... >>]
     [k |-> "err", n, row, col, sl, d, lb, la, prio, walk]     an error of the parser
     [k |-> "refused"]                                         any other error
     [k |-> "panic" | "crash" | "hang"]                                       *)
EXTENDS Wording, PegFront, PegSem, Json, IOUtils

VARIABLES c, m, e, st, ns, f, stack, seen, step

Cases == ndJsonDeserialize(IOEnv.TRACE)
MaxSteps == atoi(IOEnv.MAXSTEPS)
Big == Cases[c].big

LOCAL CaseRules(i) == MetaGrammar
LOCAL CaseText(i)  == Cases[i].text
LOCAL CaseDebug(i) == FALSE
M == INSTANCE PegMachine WITH RulesOf <- CaseRules, TextOf <- CaseText, DebugOf <- CaseDebug

tvars == << c, m, e, st, ns, f, stack, seen, step >>

Tx   == Cases[c].text
Res  == Cases[c].res
Read == M!Accepted
Env  == FromPeg(ns[1])

\* the recorded rules are exactly those of env
SameRules(recorded, env) ==
    /\ Len(recorded) = Cardinality(DOMAIN env)
    /\ \A i \in 1..Len(recorded) : recorded[i][1] \in DOMAIN env /\ recorded[i][2] = env[recorded[i][1]]

Verdict == (Res.k = "rules") = Read /\ (~Read => Res.k = "err")
Denotes == Read => Res.k = "rules" /\ SameRules(Res.rules, Env)
\* the error of the parser, where and why; MetaGrammar refers to no missing rule
ErrorOk == ~Read =>
    /\ Res.k = "err"
    /\ Res.n = f.n /\ Res.d = Words(f, LAMBDA x : << >>) /\ Res.prio = f.prio
    /\ [n |-> Res.n, row |-> Res.row, col |-> Res.col, sl |-> Res.sl] = PosAt(Tx, f.n)
    /\ Res.lb = LineBefore(Tx, f.n) /\ Res.la = LineAfter(Tx, f.n)

Broken == (IF Denotes THEN {} ELSE {"denotes"}) \cup (IF Verdict THEN {} ELSE {"verdict"})
          \cup (IF ErrorOk THEN {} ELSE {"error"})

TraceInit == \E i \in 1..Len(Cases) : M!Start(i) /\ step = 0
Step == m # "done" /\ step < MaxSteps /\ ~Big /\ M!Next /\ step' = step + 1

\* the whole parse at once: PegSem says where the machine ends (MCParse, MCFront)
WholeParse ==
    /\ Big /\ m = "eval"
    /\ LET o == Meaning(MetaGrammar, Cases[c].text) IN
       /\ m' = "done" /\ e' = M!NOE /\ step' = step + 1
       /\ f' = IF o.ok THEN NONE ELSE o.f
       /\ ns' = IF o.ok THEN << o.ast >> ELSE << >>
       /\ UNCHANGED << c, st, stack, seen >>
Judge ==
    /\ m = "done"
    /\ PrintT(<< "JUDGED", Cases[c].id, step, IF Read THEN "rules" ELSE f.d, seen, Broken >>)
    /\ m' = "judged" /\ step' = step + 1
    /\ UNCHANGED << c, e, st, ns, f, stack, seen >>
GiveUp ==
    /\ m \notin {"done", "judged"} /\ step = MaxSteps /\ ~Big
    /\ PrintT(<< "UNDECIDED", Cases[c].id, step, "none", {}, {} >>)
    /\ m' = "judged" /\ step' = step + 1
    /\ UNCHANGED << c, e, st, ns, f, stack, seen >>
TraceNext == Step \/ WholeParse \/ Judge \/ GiveUp
TraceSpec == TraceInit /\ [][TraceNext]_tvars
View == << c, step >>
=============================================================================
