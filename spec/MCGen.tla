------------------------------- MODULE MCGen -------------------------------
(* Rules, the code written for them, the rules that code builds, the code written for
   those, and so on, over families of small rule sets.  The code is read by the machine
   with the grammar of the Rust it is in; every grammar text is printed.        *)
EXTENDS RustText, PegSem, Json
P == INSTANCE PegText

VARIABLES c, m, e, st, ns, f, stack, seen, rules, names, rounds
vars == << c, m, e, st, ns, f, stack, seen, rules, names, rounds >>
CONSTANTS Family, Emit, Rounds

\* c: [t |-> the code, bc, want |-> the rules it was written for]
CfgRules(x) == RustGrammar
CfgText(x)  == x.t
CfgDebug(x) == FALSE
Mc == INSTANCE PegMachine WITH RulesOf <- CfgRules, TextOf <- CfgText, DebugOf <- CfgDebug

MAIN == << 109, 97, 105, 110 >>
LA == Lit(<< 97 >>)
Strings(S, k) == UNION {[1..i -> S] : i \in 0..k}
Odd == {97, 34, 92, 10, 13, 0, 39, 35, 233, 769, 128512}
FewOdd == {92, 34, 10, 769}
At == {LA, Dot, Ref(<< 98 >>), ErrX(<< 34 >>), Class(<< 92 >>, << << 39, 92 >> >>)}
Wrapped(X) == {Not(x) : x \in X} \cup {Rep(x, 0, INF) : x \in X} \cup {Rep(x, 1, INF) : x \in X} \cup {Rep(x, 0, 1) : x \in X}
           \cup {And(<< x, LA >>) : x \in X} \cup {Or(<< LA, x, Dot >>) : x \in X}
Exprs(w) ==
    CASE w = "chars"   -> {Lit(s) : s \in Strings(Odd, 2)} \cup {ErrX(s) : s \in Strings(Odd, 1)}
                          \cup {Class(s, r) : s \in Strings(FewOdd, 1), r \in Strings({<< 97, 122 >>, << 39, 92 >>, << 769, 128512 >>}, 2)}
      [] w = "structs" -> At \cup Wrapped(At) \cup Wrapped(Wrapped(At))
      [] w = "more"    -> {Lit(s) : s \in Strings(FewOdd \cup {35}, 3)} \cup Wrapped(Wrapped(Wrapped(At)))
                          \cup {Class(s, r) : s \in Strings(Odd, 2) \ {<< >>}, r \in Strings({<< 97, 122 >>, << 39, 92 >>, << 769, 128512 >>, << 10, 13 >>}, 2)}
Named == {MAIN, << 97 >>, << 95, 34 >>, << 46, 97, 46, 39 >>}
Sets(w) == {<< << MAIN, x >> >> : x \in Exprs(w)}
           \cup (IF w = "structs" THEN {<< << a, LA >>, << b, Ref(a) >>, << d, Not(Ref(b)) >> >> : a \in Named, b \in Named, d \in Named} ELSE {})
Fun(ds) == [n \in {ds[i][1] : i \in DOMAIN ds} |-> ds[CHOOSE i \in DOMAIN ds : ds[i][1] = n /\ \A j \in (i + 1)..Len(ds) : ds[j][1] # n][2]]
Distinct(ds) == \A i, j \in DOMAIN ds : ds[i][1] = ds[j][1] => i = j

Cfg(ds, bc) == [t |-> Write(ds, bc), bc |-> bc, want |-> Fun(ds)]
Begin(x) == Mc!Start(x)
Init == \E ds \in Sets(Family) : \E bc \in BOOLEAN :
            Distinct(ds) /\ Begin(Cfg(ds, bc)) /\ rules = Fun(ds) /\ names = << >> /\ rounds = 0
Run == m # "done" /\ Mc!Next /\ UNCHANGED << rules, names, rounds >>
\* the code is compiled, and the macro builds the rules
Built == /\ m = "done" /\ Mc!Accepted
         /\ LET ds == Definitions(ns[1]) IN
            /\ rules' = Fun(ds) /\ names' = [i \in DOMAIN ds |-> ds[i][1]] /\ rounds' = rounds + 1
            /\ IF rounds + 1 < Rounds THEN c' = Cfg(ds, c.bc) /\ m' = "eval" /\ e' = Ref("main") ELSE c' = c /\ m' = "over" /\ e' = e
            /\ st' = Status0 /\ ns' = << >> /\ f' = NONE /\ stack' = << >> /\ seen' = {}
            /\ Emit /\ rounds = 0 => PrintT(<< "BEHAVIOUR", ToJson([text |-> P!Fill(P!ShowGrammar([i \in DOMAIN ds |-> << "r", ds[i][1], ds[i][2] >>]), P!Tight),
                                                                    rules |-> [i \in DOMAIN ds |-> << ds[i][1], ds[i][2] >>]]) >>)
Next == Run \/ Built
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what holds ---- *)
Compiles == m = "done" => Mc!Accepted
SameRules == rules = c.want
EachOnce == rounds > 0 => \A i, j \in DOMAIN names : names[i] = names[j] => i = j
AllThere == rounds > 0 => {names[i] : i \in DOMAIN names} = DOMAIN c.want
GoesOn == <>(rounds = Rounds)
View == << c, m, e, st, stack, Len(ns), rounds >>
=============================================================================
