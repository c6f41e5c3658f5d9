---------------------------- MODULE TraceWritten ----------------------------
(* Grammar texts written by PegText and read by the code: what is read is what was
   written.  (That reading them as the grammar of grammars says gives back what was
   written is MCFront.)

   A case: items, fills, text, res.  items are those of PegText, where literals may
   be written with double quotes, [k |-> "lit", q |-> what is between them], and any
   expression in parentheses, [k |-> "par", e |-> it].  fills has what goes in every
   hole, in order; an index in `pool'.  res as in TraceFront.                   *)
EXTENDS PegText, Json, IOUtils

VARIABLES c, m

Cases == ndJsonDeserialize(IOEnv.TRACE)
Tx_  == Cases[c].text
Res  == Cases[c].res

(* ------------------------------ what may be written ------------------------------ *)
EOLS == {10, 13}
\* where a comment that starts at i ends, or 0
RECURSIVE LineEnd(_, _), BlockEnd(_, _)
LineEnd(s, i)  == IF i > Len(s) THEN 0 ELSE IF s[i] \in EOLS THEN (IF s[i] = 13 /\ i < Len(s) /\ s[i + 1] = 10 THEN i + 1 ELSE i) ELSE LineEnd(s, i + 1)
BlockEnd(s, i) == IF i + 1 > Len(s) THEN 0 ELSE IF s[i] = 42 /\ s[i + 1] = 47 THEN i + 1 ELSE BlockEnd(s, i + 1)
CommentEnd(s, i) ==
    IF i + 1 > Len(s) \/ s[i] # 47 THEN 0
    ELSE IF s[i + 1] = 47 THEN LineEnd(s, i + 2) ELSE IF s[i + 1] = 42 THEN BlockEnd(s, i + 2) ELSE 0
\* from i on: white space and comments
RECURSIVE Blank(_, _), ToEol(_, _)
Blank(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE IF s[i] = 32 \/ s[i] \in EOLS THEN Blank(s, i + 1)
    ELSE LET j == CommentEnd(s, i) IN j # 0 /\ Blank(s, j + 1)
\* spaces and comments, then the end of a line, then as above
ToEol(s, i) ==
    IF i > Len(s) THEN FALSE
    ELSE IF s[i] \in EOLS THEN Blank(s, i + 1)
    ELSE IF s[i] = 32 THEN ToEol(s, i + 1)
    ELSE LET j == CommentEnd(s, i) IN j # 0 /\ ToEol(s, j + 1)
FillerOk(k, s) ==
    CASE k = "o" -> Blank(s, 1)
      [] k = "s" -> s # << >> /\ (s[1] = 32 \/ s[1] \in EOLS) /\ Blank(s, 1)
      [] k = "e" -> ToEol(s, 1)

Letter(ch) == (97 <= ch /\ ch <= 122) \/ (65 <= ch /\ ch <= 90) \/ (48 <= ch /\ ch <= 57) \/ ch = 95
SymbolOk(s) == s # << >> /\ Letter(s[1]) /\ \A i \in 2..Len(s) : Letter(s[i]) \/ s[i] \in {39, 34}
\* parts with dots between, and maybe one before
NameOk(s) == s # << >> /\ (LET t == IF s[1] = 46 THEN Tail(s) ELSE s IN
    /\ t # << >> /\ t[1] # 46 /\ t[Len(t)] # 46
    /\ \A i \in 1..Len(t) : Letter(t[i]) \/ t[i] \in {39, 34, 46}
    /\ \A i \in 1..Len(t) : (i = 1 \/ t[i - 1] = 46) => Letter(t[i]))

\* what is between double quotes: no other one but escaped ones
RECURSIVE BodyOk(_, _)
BodyOk(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE IF s[i] = 34 THEN FALSE
    ELSE IF s[i] = 92 /\ i < Len(s) /\ s[i + 1] \in {92, 34, 110, 114, 116} THEN BodyOk(s, i + 2)
    ELSE IF s[i] = 92 /\ i = Len(s) THEN FALSE
    ELSE BodyOk(s, i + 1)
\* listed characters and ranges can be told from each other
ClassOk(x) ==
    /\ x.c # << >> \/ x.r # << >>
    /\ \A i \in DOMAIN x.c : x.c[i] # 93 /\ (i > 1 => x.c[i] # 45)
    /\ x.c # << >> /\ x.r # << >> => x.r[1][1] # 45
    /\ x.c = << >> => x.r # << >>

RECURSIVE ExprOk(_)
ExprOk(x) ==
    CASE x.k \in {"lit", "err"} -> IF "q" \in DOMAIN x THEN BodyOk(x.q, 1) ELSE \A i \in DOMAIN x.s : x.s[i] # 39
      [] x.k = "match"          -> ClassOk(x)
      [] x.k = "ref"            -> NameOk(x.n)
      [] x.k \in {"and", "or"}  -> Len(x.es) > 1 /\ \A i \in DOMAIN x.es : ExprOk(x.es[i])
      [] x.k = "rep"            -> << x.lo, x.hi >> \in {<< 0, INF >>, << 1, INF >>, << 0, 1 >>} /\ ExprOk(x.e)
      [] x.k \in {"not", "par"} -> ExprOk(x.e)
      [] x.k = "dot"            -> TRUE
RECURSIVE ItemsOk(_)
ItemsOk(its) == its # << >> /\ \A i \in DOMAIN its :
    IF its[i][1] = "r" THEN NameOk(its[i][2]) /\ ExprOk(its[i][3]) ELSE SymbolOk(its[i][2]) /\ ItemsOk(its[i][3])

(* ------------------------------ what it stands for ------------------------------ *)
RECURSIVE Bare(_), BareItems(_)
Bare(x) ==
    CASE x.k = "lit"   -> IF "q" \in DOMAIN x THEN Lit(Unescape(x.q)) ELSE x
      [] x.k = "err"   -> IF "q" \in DOMAIN x THEN ErrX(Unescape(x.q)) ELSE x
      [] x.k \in {"and", "or"}  -> [x EXCEPT !.es = [i \in DOMAIN x.es |-> Bare(x.es[i])]]
      [] x.k \in {"rep", "not"} -> [x EXCEPT !.e = Bare(x.e)]
      [] x.k = "par"            -> Bare(x.e)
      [] OTHER                  -> x
BareItems(its) == [i \in DOMAIN its |-> << its[i][1], its[i][2], IF its[i][1] = "r" THEN Bare(its[i][3]) ELSE BareItems(its[i][3]) >>]

(* ------------------------------ the case ------------------------------ *)
Pieces == ShowGrammar(Cases[c].items)
HoleNo(ps) == LET N[i \in 0..Len(ps)] == IF i = 0 THEN 0 ELSE N[i - 1] + (IF ps[i].k = "text" THEN 0 ELSE 1) IN N
FillOf(j) == Cases[c].pool[Cases[c].fills[j]]
Written ==
    /\ ItemsOk(Cases[c].items)
    /\ LET ps == Pieces  n == HoleNo(ps)
           t == Fill(ps, LAMBDA i, k : FillOf(n[i])) IN
       /\ n[Len(ps)] = Len(Cases[c].fills)
       /\ \A i \in DOMAIN ps : ps[i].k # "text" =>
             /\ FillerOk(ps[i].k, FillOf(n[i]))
             \* what follows a choice is not taken for a comment
             /\ i > 1 /\ ps[i - 1].k = "text" /\ ps[i - 1].s = << 47 >> /\ FillOf(n[i]) # << >> => FillOf(n[i])[1] # 47
       /\ t = Tx_
SameRules(recorded, env) ==
    /\ Len(recorded) = Cardinality(DOMAIN env)
    /\ \A i \in 1..Len(recorded) : recorded[i][1] \in DOMAIN env /\ recorded[i][2] = env[recorded[i][1]]
Verdict == Res.k = "rules"
Denotes == Res.k = "rules" /\ SameRules(Res.rules, Scope(BareItems(Cases[c].items)))
Broken  == IF ~Verdict THEN {"verdict", "denotes"} ELSE IF Denotes THEN {} ELSE {"denotes"}

Init == c \in 1..Len(Cases) /\ m = "read"
Judge == /\ m = "read"
         /\ IF Written THEN PrintT(<< "JUDGED", Cases[c].id, 0, "rules", {}, Broken >>)
            ELSE PrintT(<< "UNDECIDED", Cases[c].id, 0, "none", {}, {} >>)
         /\ m' = "judged" /\ UNCHANGED c
Spec == Init /\ [][Judge]_<< c, m >>
=============================================================================
