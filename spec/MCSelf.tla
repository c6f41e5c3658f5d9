------------------------------- MODULE MCSelf -------------------------------
(* The grammar of grammars reading itself.  What is installed reads the documented text
   (the machine, then PegFront), the rules are written as Rust, that is compiled (read
   with the grammar of the Rust it is in) and installed instead, and so on.        *)
EXTENDS RustText, PegSem, Json
F == INSTANCE PegFront
S == INSTANCE SelfText

VARIABLES c, m, e, st, ns, f, stack, seen, read, code, rounds, step
vars == << c, m, e, st, ns, f, stack, seen, read, code, rounds, step >>
CONSTANTS Rounds, Whole

\* c: [rules |-> what is installed, t |-> the text]
CfgRules(x) == x.rules
CfgText(x)  == x.t
CfgDebug(x) == FALSE
Mc == INSTANCE PegMachine WITH RulesOf <- CfgRules, TextOf <- CfgText, DebugOf <- CfgDebug

\* names are strings in what is installed, and characters in what is read or written
Names == DOMAIN F!MetaGrammar
Spelt(cs) == CHOOSE n \in Names : S!NameCodes(n) = cs
RECURSIVE AsKnown(_, _)
\* spelt: whether names are characters
AsKnown(x, spelt) ==
    CASE x.k = "ref" -> IF spelt THEN Ref(Spelt(x.n)) ELSE x
      [] x.k \in {"not", "rep"} -> [x EXCEPT !.e = AsKnown(x.e, spelt)]
      [] x.k \in {"and", "or"} -> [x EXCEPT !.es = [i \in DOMAIN x.es |-> AsKnown(x.es[i], spelt)]]
      [] x.k = "match" -> Class(x.c, x.r)
      [] OTHER -> x
Known(rs) == DOMAIN rs = {S!NameCodes(n) : n \in Names}
AsInstalled(rs) == [n \in Names |-> AsKnown(rs[S!NameCodes(n)], TRUE)]
Documented == [n \in Names |-> AsKnown(F!MetaGrammar[n], FALSE)]
Fun(ds) == [n \in {ds[i][1] : i \in DOMAIN ds} |-> ds[CHOOSE i \in DOMAIN ds : ds[i][1] = n][2]]
RECURSIVE Listed(_)
Listed(X) == IF X = {} THEN << >> ELSE LET x == CHOOSE x \in X : TRUE IN << x >> \o Listed(X \ {x})

NOTHING == << >>
Init == Mc!Start([rules |-> Documented, t |-> S!SelfText]) /\ read = NOTHING /\ code = NOTHING /\ rounds = 0 /\ step = 0
\* the whole reading at once (MCParse: PegSem says where the machine ends)
WholeRun ==
    /\ Whole /\ m = "eval"
    /\ LET o == Meaning(c.rules, c.t) IN m' = "done" /\ e' = Mc!NOE /\ ns' = (IF o.ok THEN << o.ast >> ELSE << >>) /\ f' = IF o.ok THEN NONE ELSE o.f
    /\ UNCHANGED << c, st, stack, seen, read, code, rounds >>
Run == ~Whole /\ m # "done" /\ Mc!Next /\ UNCHANGED << read, code, rounds >>
Read == /\ m = "done" /\ Mc!Accepted /\ read = NOTHING
        /\ read' = F!FromPeg(ns[1])
        /\ UNCHANGED << c, m, e, st, ns, f, stack, seen, code, rounds >>
Printed == /\ read # NOTHING /\ code = NOTHING
         /\ LET ks == Listed(DOMAIN read) IN code' = Write([i \in DOMAIN ks |-> << ks[i], read[ks[i]] >>], TRUE)
         /\ UNCHANGED << c, m, e, st, ns, f, stack, seen, read, rounds >>
Install == /\ code # NOTHING /\ rounds < Rounds
           /\ LET built == Fun(Definitions(Meaning(RustGrammar, code).ast)) IN
              /\ Known(built)
              /\ c' = [c EXCEPT !.rules = AsInstalled(built)]
              /\ m' = "eval" /\ e' = Ref("main") /\ st' = Status0 /\ ns' = << >> /\ f' = NONE /\ stack' = << >> /\ seen' = {}
              /\ read' = NOTHING /\ code' = NOTHING /\ rounds' = rounds + 1
Next == (WholeRun \/ Run \/ Read \/ Printed \/ Install) /\ step' = step + 1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what holds ---- *)
ReadsItself == m = "done" => Mc!Accepted
SameAgain == read # NOTHING => Known(read) /\ AsInstalled(read) = Documented
Installed == c.rules = Documented
Over == rounds = Rounds /\ code # NOTHING
GoesOn == <>Over
View == << rounds, step >>
=============================================================================
