------------------------------- MODULE MCSets -------------------------------
(* Histories of rule sets in a few registers, exhaustively, and what holds of them.
   regs is what the registers hold; terms is how that came about, whose meaning is
   given on its own, rule by rule, by Lookup.  did is the history, out what every
   step showed.                                                               *)
EXTENDS RuleSets, PegSem, Json

VARIABLES regs, terms, did, out
vars == << regs, terms, did, out >>
CONSTANTS Registers, Steps, Emit, Family

A == << 97 >>  B == << 98 >>
Names(w) == CASE w = "small" -> {"main", "b"} [] OTHER -> {"main", "b", "c"}
Exprs(w) == CASE w = "small" -> {Lit(A), Ref("b")} [] OTHER -> {Lit(A), Ref("b"), And(<< Lit(B), Ref("c") >>)}
Texts == {A, B}
Lists(w) == {<< >>} \cup {<< << n, e >> >> : n \in Names(w), e \in Exprs(w)}
         \cup (IF w = "small" THEN {<< << "main", Ref("b") >>, << "b", e >> >> : e \in Exprs(w)} ELSE {<< << "b", Lit(B) >>, << "main", Ref("b") >>, << "b", Lit(A) >> >>})

Live(r) == r \in DOMAIN regs
Put(f, r, s) == [x \in DOMAIN f \cup {r} |-> IF x = r THEN s ELSE f[x]]
Drop(f, r)   == [x \in DOMAIN f \ {r} |-> f[x]]
Made(ps)        == [t |-> "made", ps |-> ps]
AddTo(s, n, e)  == [t |-> "add", s |-> s, n |-> n, e |-> e]
MergeIn(s, o)   == [t |-> "merge", s |-> s, o |-> o]

Show(s) == [x \in DOMAIN s |-> s[x]]
Note(step, shown) == did' = Append(did, step) /\ out' = Append(out, shown)

Init == regs = << >> /\ terms = << >> /\ did = << >> /\ out = << >>
Create(r, ps) ==
    /\ regs' = Put(regs, r, Created(ps)) /\ terms' = Put(terms, r, Made(ps))
    /\ Note([a |-> "macro", r |-> r, rules |-> ps], [k |-> "set", s |-> Created(ps)])
Add(r, n, e) ==
    /\ Live(r)
    /\ regs' = Put(regs, r, Added(regs[r], n, e)) /\ terms' = Put(terms, r, AddTo(terms[r], n, e))
    /\ Note([a |-> "add", r |-> r, name |-> n, e |-> e], [k |-> "set", s |-> Added(regs[r], n, e)])
Merge(r, s) ==
    /\ r # s /\ Live(r) /\ Live(s)
    /\ regs' = Drop(Put(regs, r, Merged(regs[r], regs[s])), s) /\ terms' = Drop(Put(terms, r, MergeIn(terms[r], terms[s])), s)
    /\ Note([a |-> "merge", r |-> r, s |-> s], [k |-> "set", s |-> Merged(regs[r], regs[s])])
\* what a text gives, rule names aside
Outcome(s, t) == LET o == Meaning(s, t) IN IF o.ok THEN [k |-> "ok", ast |-> Tokens(o.ast)] ELSE [k |-> "err", n |-> o.f.n, prio |-> o.f.prio]
Parse(r, t) ==
    /\ Live(r)
    /\ Note([a |-> "parse", r |-> r, text |-> t], [k |-> "parse", o |-> Outcome(regs[r], t)])
    /\ UNCHANGED << regs, terms >>
Go == /\ Len(did) < Steps
      /\ \/ \E r \in Registers : \E ps \in Lists(Family) : (~Live(r) \/ did = << >>) /\ Create(r, ps)
         \/ \E r \in Registers, n \in Names(Family) : \E e \in Exprs(Family) : Add(r, n, e)
         \/ \E r, s \in Registers : Merge(r, s)
         \/ Len(did) = Steps - 1 /\ \E r \in Registers : \E t \in Texts : Parse(r, t)
Tell == Len(did) = Steps /\ Emit => PrintT(<< "BEHAVIOUR", ToJson([steps |-> did, out |-> out]) >>)
Spec == Init /\ [][Go]_vars
Printed == Tell

(* ---- what holds ---- *)
NoDef == [k |-> "undefined"]
\* the definition of n in the rule set made like this
RECURSIVE Lookup(_, _), NamesMade(_)
Lookup(t, n) ==
    CASE t.t = "made"  -> LET is == {i \in DOMAIN t.ps : t.ps[i][1] = n} IN
                          IF is = {} THEN NoDef ELSE t.ps[CHOOSE i \in is : \A j \in is : j <= i][2]
      [] t.t = "add"   -> IF t.n = n THEN t.e ELSE Lookup(t.s, n)
      [] t.t = "merge" -> LET mine == Lookup(t.s, n) IN IF mine.k # "undefined" THEN mine ELSE Lookup(t.o, n)
NamesMade(t) == CASE t.t = "made" -> {t.ps[i][1] : i \in DOMAIN t.ps}
                  [] t.t = "add" -> NamesMade(t.s) \cup {t.n}
                  [] t.t = "merge" -> NamesMade(t.s) \cup NamesMade(t.o)
HoldsWhatWasPut ==
    \A r \in Registers : Live(r) =>
        /\ DOMAIN regs[r] = NamesMade(terms[r])
        /\ \A n \in DOMAIN regs[r] : regs[r][n] = Lookup(terms[r], n)
\* a step changes the binding it is about and no other; merging only brings in what was not there
OnlyThat ==
    [][\A r \in Registers : Live(r) /\ r \in DOMAIN regs' /\ did' # did /\ Last(did').r = r =>
        LET d == Last(did') IN
        \A n \in DOMAIN regs[r] \cup DOMAIN regs'[r] :
            CASE d.a = "add"   -> IF n = d.name THEN regs'[r][n] = d.e ELSE n \in DOMAIN regs[r] /\ regs'[r][n] = regs[r][n]
              [] d.a = "merge" -> IF n \in DOMAIN regs[r] THEN regs'[r][n] = regs[r][n] ELSE regs'[r][n] = regs[d.s][n]
              [] d.a = "parse" -> regs' = regs
              [] OTHER         -> TRUE]_vars
OthersKeep ==
    [][\A r \in Registers : did' # did /\ Last(did').r # r /\ Live(r) =>
            IF r \in DOMAIN regs' THEN regs'[r] = regs[r] ELSE Last(did').a = "merge" /\ Last(did').s = r]_vars
\* only the bindings matter: sets made differently with the same bindings parse the same; and
\* merging is the same as adding the rules of the other that are missing, in any order
MergeIsAdding ==
    \A r, s \in Registers : r # s /\ Live(r) /\ Live(s) =>
        LET m == Merged(regs[r], regs[s])
            new == DOMAIN regs[s] \ DOMAIN regs[r] IN
        /\ new = {} => m = regs[r]
        /\ \A n \in new : m = Merged(Added(regs[r], n, regs[s][n]), regs[s])
=============================================================================
