----------------------------- MODULE TraceParse -----------------------------
(* Parses recorded from the code, against the machine.

   Every recorded case is one behaviour of PegMachine (rules and text from the
   log, debug on: MCParse shows that debug only adds the walk).  When it is done,
   Judge compares what the code answered and names the properties it breaks.

   A case: rules (record name -> expression), text, names (record name -> code
   points), res and dres: answers without and with debug.  An answer is
     [k |-> "ok", ast]   the tree as Tokens
     [k |-> "err", n, row, col, sl, d, lb, la, prio, walk]
     [k |-> "panic" | "crash" | "hang"]                                       *)
EXTENDS Wording, PegSem, Json, IOUtils

VARIABLES c, m, e, st, ns, f, stack, seen, step

Cases == ndJsonDeserialize(IOEnv.TRACE)
MaxSteps == atoi(IOEnv.MAXSTEPS)
Big == Cases[c].big

LOCAL CaseRules(i) == Cases[i].rules
LOCAL CaseText(i)  == Cases[i].text
LOCAL CaseDebug(i) == TRUE

M == INSTANCE PegMachine WITH RulesOf <- CaseRules, TextOf <- CaseText, DebugOf <- CaseDebug

tvars == << c, m, e, st, ns, f, stack, seen, step >>

\* ---- what the code answered, against what the machine did, case i at its end
Bad(r)      == r.k \notin {"ok", "err"}
Tx          == Cases[c].text
Spec        == M!Outcome
SpecWords   == Words(f, LAMBDA x : Cases[c].names[x])
Verdict(r)  == IF Bad(r) THEN FALSE ELSE (r.k = "ok") = Spec.ok
Tree(r)     == r.k = "ok" /\ Spec.ok => r.ast = Tokens(Spec.ast)
Where(r)    == r.k = "err" /\ ~Spec.ok => r.n = f.n
What(r)     == r.k = "err" /\ ~Spec.ok => r.d = SpecWords
Prio(r)     == r.k = "err" /\ ~Spec.ok => r.prio = f.prio
Located(r)  == r.k = "err" =>
    /\ r.n \in 0..Len(Tx)
    /\ [n |-> r.n, row |-> r.row, col |-> r.col, sl |-> r.sl] = PosAt(Tx, r.n)
    /\ r.lb = LineBefore(Tx, r.n) /\ r.la = LineAfter(Tx, r.n)
WholeError(r) == Where(r) /\ What(r) /\ Prio(r) /\ Located(r)
Agrees(r)   == Verdict(r) /\ Tree(r) /\ WholeError(r)

\* what an error says apart from the rules walked
Said(r) == IF r.k = "err" THEN [x \in DOMAIN r \ {"walk"} |-> r[x]] ELSE r

Res  == Cases[c].res
DRes == Cases[c].dres

\* the machine stopped at an expression that aborts
Aborts     == ~Spec.ok /\ f.prio = "critical"
UserAborts == Aborts /\ f.d \in {"user", "missing"}
LeftRec    == Aborts /\ f.d = "leftrec"

Holds(p) ==
    CASE p = "C01" -> Verdict(Res)
      [] p = "C02" -> Tree(Res)
      [] p = "C03" -> Agrees(Res)
      [] p = "C04" -> Located(Res) /\ Located(DRes)
      [] p = "C05" -> ~Aborts => Where(Res) /\ What(Res)
      [] p = "C06" -> IF UserAborts
                      THEN Res.k = "err" /\ Where(Res) /\ What(Res) /\ Prio(Res)
                      ELSE Res.k = "err" /\ ~Aborts => Prio(Res)
      [] p = "C07" -> /\ ~Bad(Res) /\ ~Bad(DRes)
                      /\ LeftRec => Res.k = "err" /\ Where(Res) /\ What(Res) /\ Prio(Res)
                      /\ "idle" \in seen => Agrees(Res)
      [] p = "C08" -> Agrees(Res)
      [] p = "C09" -> /\ Said(Res) = Said(DRes)
                      /\ Res.k = "err" => Res.walk = << >>
                      /\ DRes.k = "err" /\ ~Spec.ok => DRes.walk = f.walk
Properties == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"}
Broken     == {p \in Properties : ~Holds(p)}

\* ---- the trace specification
Kind == IF Spec.ok THEN "accept" ELSE f.d
TraceInit == \E i \in 1..Len(Cases) : M!Start(i) /\ step = 0

Step == m # "done" /\ step < MaxSteps /\ ~Big /\ M!Next /\ step' = step + 1

\* the whole parse at once: PegSem says where the machine ends (MCParse, MCFront)
WholeParse ==
    /\ Big /\ m = "eval"
    /\ LET o == Meaning(Cases[c].rules, Cases[c].text) IN
       /\ m' = "done" /\ e' = M!NOE /\ step' = step + 1
       /\ f' = IF o.ok THEN NONE ELSE o.f
       /\ ns' = IF o.ok THEN << o.ast >> ELSE << >>
       /\ UNCHANGED << c, st, stack, seen >>

Judge ==
    /\ m = "done"
    /\ PrintT(<< "JUDGED", Cases[c].id, step, Kind, seen, Broken >>)
    /\ m' = "judged" /\ step' = step + 1
    /\ UNCHANGED << c, e, st, ns, f, stack, seen >>

\* the search of the machine takes too long: no verdict
GiveUp ==
    /\ m \notin {"done", "judged"} /\ step = MaxSteps /\ ~Big
    /\ PrintT(<< "UNDECIDED", Cases[c].id, step, "none", {}, {} >>)
    /\ m' = "judged" /\ step' = step + 1
    /\ UNCHANGED << c, e, st, ns, f, stack, seen >>

TraceNext == Step \/ WholeParse \/ Judge \/ GiveUp
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* one state per case and step: the machine is deterministic
View == << c, step >>
=============================================================================
