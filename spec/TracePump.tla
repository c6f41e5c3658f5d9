----------------------------- MODULE TracePump -----------------------------
(* Inputs with a part repeated any number of times.  What comes out is summed up: how
   many of everything, where, and how it begins and ends.  For small counts PegSem (or
   PegFront, or AstOps) says what the sum is; when every one of them differs from the one
   before by the same, it is so for any count, and what the code gives for thousands is
   what that says.

   A case: id, what ("parse", "peg", "ast", "code"), pre, unit, post, and
     parse   rules (literals and repetitions may be marked to grow with the count), names
     ast     root, f, names; pre, unit and post are lists of nodes
   at: counts, the small ones first; res: what the code gave for each; dat, dres: the
   same in debug mode.  A sum: [k, v, x], v the numbers and x how it begins and ends. *)
EXTENDS Wording, PegFront, PegSem, AstOps, Json, IOUtils

VARIABLES c, m
Cases == ndJsonDeserialize(IOEnv.TRACE)
Case  == Cases[c]

SHOWN == 6
\* the small counts
LO == 8
HI == 17
Ends(s) == LET k == IF Len(s) < SHOWN THEN Len(s) ELSE SHOWN IN
           << SubSeq(s, 1, k), SubSeq(s, Len(s) - k + 1, Len(s)) >>
RECURSIVE Times(_, _)
Times(s, k) == IF k = 0 THEN << >> ELSE IF k = 1 THEN s
               ELSE LET h == Times(s, k \div 2) IN IF k % 2 = 0 THEN h \o h ELSE h \o h \o s
Pumped(k) == Case.pre \o Times(Case.unit, k) \o Case.post

(* ---- rules that grow ---- *)
RECURSIVE Grown(_, _)
Grown(x, k) ==
    CASE x.k = "lit" /\ "grow" \in DOMAIN x -> Lit(Times(x.s, k))
      [] x.k = "rep" -> LET b == Grown(x.e, k) IN
                        IF "grow" \in DOMAIN x THEN Rep(b, x.lo * k, IF x.hi = INF THEN INF ELSE x.hi * k) ELSE Rep(b, x.lo, x.hi)
      [] x.k = "not" -> Not(Grown(x.e, k))
      [] x.k \in {"and", "or"} -> [x EXCEPT !.es = [i \in DOMAIN x.es |-> Grown(x.es[i], k)]]
      [] OTHER -> x
RulesAt(k) == [n \in DOMAIN Case.rules |-> Grown(Case.rules[n], k)]

\* nesting does not depend on the text: no rule comes back to itself
RECURSIVE Named(_), Reach(_, _)
Named(x) == CASE x.k = "ref" -> {x.n}
              [] x.k \in {"and", "or"} -> UNION {Named(x.es[i]) : i \in DOMAIN x.es}
              [] x.k \in {"rep", "not"} -> Named(x.e)
              [] OTHER -> {}
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup UNION {Named(Case.rules[n]) : n \in S \cap DOMAIN Case.rules}, k - 1)
RECURSIVE Depth(_)
Depth(nd) == IF nd.t # "r" \/ nd.c = << >> THEN 1
             ELSE LET ds == {Depth(nd.c[i]) : i \in DOMAIN nd.c} IN 1 + CHOOSE d \in ds : \A x \in ds : x <= d
ReadAt(k) == TLCEval(Meaning(MetaGrammar, Pumped(k)))
DepthAt(o) == IF o.ok THEN Depth(o.ast) ELSE 0
Flat ==
    IF Case.what \in {"peg", "code"} THEN DepthAt(ReadAt(LO)) = DepthAt(ReadAt(HI))
    ELSE Case.what = "parse" => \A n \in DOMAIN Case.rules : n \notin Reach(Named(Case.rules[n]), Cardinality(DOMAIN Case.rules))

(* ---- sums ---- *)
Count(ts, k) == Cardinality({i \in DOMAIN ts : ts[i].t = k})
RECURSIVE Chars(_, _, _)
Chars(ts, a, b) == IF a > b THEN 0 ELSE IF a = b THEN (IF ts[a].t = "v" THEN Len(ts[a].s) ELSE 0)
                   ELSE LET h == (a + b) \div 2 IN Chars(ts, a, h) + Chars(ts, h + 1, b)
Short(t) == IF t.t = "v" THEN [t EXCEPT !.s = Ends(t.s)] ELSE t
SumTokens(ts) == [k |-> "ok", v |-> << Count(ts, "v"), Count(ts, "b"), Count(ts, "x"), Count(ts, "e"), Chars(ts, 1, Len(ts)) >>,
                  x |-> LET e == Ends(ts) IN << << [i \in DOMAIN e[1] |-> Short(e[1][i])], [i \in DOMAIN e[2] |-> Short(e[2][i])] >> >>]
SumError(t, f, d, debug) ==
    LET p == PosAt(t, f.n)  lb == LineBefore(t, f.n)  la == LineAfter(t, f.n)  w == IF debug THEN f.walk ELSE << >> IN
    [k |-> "err", v |-> << p.n, p.row, p.col, p.sl, Len(lb), Len(la), Len(d), Len(w) >>,
     x |-> << Ends(lb), Ends(la), Ends(d), f.prio, Ends(w) >>]

ParseSum(k, debug) ==
    LET t == Pumped(k)  o == Meaning(RulesAt(k), t) IN
    IF o.ok THEN SumTokens(Tokens(o.ast)) ELSE SumError(t, o.f, Words(o.f, LAMBDA x : Case.names[x]), debug)

\* expressions, characters of literals, of classes, ranges, characters of names
RECURSIVE Parts(_)
Plus(u, w) == [i \in 1..5 |-> u[i] + w[i]]
RECURSIVE PartsOf(_, _, _)
PartsOf(xs, a, b) == IF a > b THEN << 0, 0, 0, 0, 0 >> ELSE IF a = b THEN Parts(xs[a])
                     ELSE LET h == (a + b) \div 2 IN Plus(PartsOf(xs, a, h), PartsOf(xs, h + 1, b))
Parts(x) ==
    CASE x.k \in {"lit", "err"} -> << 1, Len(x.s), 0, 0, 0 >>
      [] x.k = "match"          -> << 1, 0, Len(x.c), Len(x.r), 0 >>
      [] x.k = "ref"            -> << 1, 0, 0, 0, Len(x.n) >>
      [] x.k \in {"and", "or"}  -> Plus(<< 1, 0, 0, 0, 0 >>, PartsOf(x.es, 1, Len(x.es)))
      [] x.k \in {"rep", "not"} -> Plus(<< 1, 0, 0, 0, 0 >>, Parts(x.e))
      [] OTHER                  -> << 1, 0, 0, 0, 0 >>
RECURSIVE RuleParts(_, _)
RuleParts(env, S) == IF S = {} THEN << 0, 0, 0, 0, 0 >>
                     ELSE LET n == CHOOSE n \in S : TRUE IN
                          Plus(Plus(Parts(env[n]), << 0, 0, 0, 0, Len(n) >>), RuleParts(env, S \ {n}))
ReadSum(k) ==
    LET t == Pumped(k)  o == ReadAt(k) IN
    IF ~o.ok THEN SumError(t, o.f, Words(o.f, LAMBDA x : << >>), FALSE)
    ELSE LET env == FromPeg(o.ast) IN [k |-> "rules", v |-> << Cardinality(DOMAIN env) >> \o RuleParts(env, DOMAIN env), x |-> << >>]

AstSum(k) ==
    LET tr == Rule(Case.root, Pumped(k))  N == Range(Case.names) IN
    CASE Case.f = "prune"   -> SumTokens(Tokens(Prune(tr, N)))
      [] Case.f = "pass"    -> SumTokens(Tokens(PassThrough(tr, N)))
      [] Case.f = "compact" -> SumTokens(Tokens(Compact(tr)))
      [] Case.f = "flatten" -> SumTokens(Flatten(tr))

\* code is answered with for whatever text is a grammar (what it says is up to TraceGen)
CodeSum(k) == [k |-> IF ReadAt(k).ok THEN "ok" ELSE "refused", v |-> << >>, x |-> << >>]

Sum(k, debug) == CASE Case.what = "parse" -> ParseSum(k, debug)
                   [] Case.what = "peg"   -> ReadSum(k)
                   [] Case.what = "ast"   -> AstSum(k)
                   [] Case.what = "code"  -> CodeSum(k)

(* ---- from small counts to any ---- *)
Sums(debug) == TLCEval([k \in LO..HI |-> Sum(k, debug)])
Step(s) == TLCEval([i \in DOMAIN s[LO].v |-> s[LO + 1].v[i] - s[LO].v[i]])
Regular(s) ==
    /\ \A k \in LO..HI : s[k].k = s[LO].k /\ Len(s[k].v) = Len(s[LO].v) /\ s[k].x = s[LO].x
    /\ \A k \in LO..(HI - 1) : \A i \in DOMAIN s[k].v : s[k + 1].v[i] - s[k].v[i] = Step(s)[i]
At(s, k) == [s[LO] EXCEPT !.v = [i \in DOMAIN @ |-> @[i] + (k - LO) * Step(s)[i]]]

\* what is wrong with what the code gave, r, where the sum is w
Agree(r, w, is) == Len(r.v) = Len(w.v) /\ \A i \in is : r.v[i] = w.v[i]
Wrong(r, w) ==
    IF Case.what = "code" THEN (IF r.k \in {"ok", "refused"} THEN {} ELSE {"answer"})
    ELSE IF r.k \notin {"ok", "err", "rules"} THEN {"answer", "verdict", "tree", "rules", "place", "located", "words", "prio", "walk"}
    ELSE IF r.k # w.k THEN {"verdict", "rules"}
    ELSE IF r.k = "ok" THEN (IF r.v = w.v /\ r.x = w.x THEN {} ELSE {"tree"})
    ELSE IF r.k = "rules" THEN (IF r.v = w.v THEN {} ELSE {"rules"})
    ELSE (IF Agree(r, w, {1}) THEN {} ELSE {"place"})
         \cup (IF Agree(r, w, {2, 3, 4, 5, 6}) /\ r.x[1] = w.x[1] /\ r.x[2] = w.x[2] THEN {} ELSE {"located"})
         \cup (IF Agree(r, w, {7}) /\ r.x[3] = w.x[3] THEN {} ELSE {"words"})
         \cup (IF r.x[4] = w.x[4] THEN {} ELSE {"prio"})
         \cup (IF Agree(r, w, {8}) /\ r.x[5] = w.x[5] THEN {} ELSE {"walk"})

Broken(s, ds) == UNION ({Wrong(Case.res[i], At(s, Case.at[i])) : i \in DOMAIN Case.at}
                        \cup {{IF x = "walk" THEN "dwalk" ELSE x : x \in Wrong(Case.dres[i], At(ds, Case.dat[i]))} : i \in DOMAIN Case.dat})

Init == c \in 1..Len(Cases) /\ m = "sum"
Judge ==
    /\ m = "sum"
    /\ LET s == Sums(FALSE)  ds == IF Case.dat = << >> THEN s ELSE Sums(TRUE) IN
       IF Flat /\ Regular(s) /\ Regular(ds) THEN PrintT(<< "JUDGED", Case.id, 0, s[LO].k, {}, Broken(s, ds) >>)
       ELSE PrintT(<< "UNDECIDED", Case.id, 0, "none", {}, {} >>)
    /\ m' = "judged" /\ UNCHANGED c
Spec == Init /\ [][Judge]_<< c, m >>
=============================================================================
