------------------------------ MODULE MCParse ------------------------------
(* PegMachine, exhaustively over families of small rule sets and texts, against
   PegSem and against what each property says.  A configuration is
   [r |-> rules, t |-> text, d |-> debug].                                    *)
EXTENDS PegSem, Json

VARIABLES c, m, e, st, ns, f, stack, seen

CONSTANT Family          \* which configurations
CONSTANT Emit            \* print what each configuration gives, to be replayed on the code

CfgRules(x) == x.r
CfgText(x)  == x.t
CfgDebug(x) == x.d
Mc == INSTANCE PegMachine WITH RulesOf <- CfgRules, TextOf <- CfgText, DebugOf <- CfgDebug

(* ------------------------------ families ------------------------------ *)
A == 97  B == 98  C2 == 233  C4 == 128512      \* 'a', 'b', 2 bytes in UTF-8, 4 bytes
Strings(S, k) == UNION {[1..i -> S] : i \in 0..k}

Atoms == {Lit(<< A >>), Lit(<< A, B >>), Dot, Class(<< B >>, << >>), Eof, ErrX(<< 33 >>), Ref("b"), Ref("main"), Ref("x")}
Small == {Lit(<< A >>), Lit(<< A, B >>), Dot, Eof, Ref("b")}
Bounds == {<< 0, INF >>, << 1, INF >>, << 0, 1 >>, << 0, 0 >>, << 2, 3 >>}
Layer(X, Y) == {And(<< x, y >>) : x \in X, y \in Y} \cup {Or(<< x, y >>) : x \in X, y \in Y}
Unary(X) == {Not(x) : x \in X} \cup {Rep(x, q[1], q[2]) : x \in X, q \in Bounds}
One == Layer(Atoms, Atoms) \cup Unary(Atoms) \cup {And(<< >>), Or(<< >>)}
OneSmall == Layer(Small, Small) \cup Unary(Small)
BodyB == Or(<< And(<< Lit(<< B >>), Rep(Lit(<< A >>), 0, 1) >>), Lit(<< A >>) >>)

Cfg(main, b, t, d) == [r |-> [x \in {"main", "b"} |-> IF x = "main" THEN main ELSE b], t |-> t, d |-> d]

\* every expression of one construct over atoms
FamOne(u) == {Cfg(x, BodyB, t, d) : x \in One \cup Atoms, t \in Strings({A, B}, 3), d \in BOOLEAN}
\* two constructs
FamTwoQuick(u) == {Cfg(x, BodyB, t, TRUE) : x \in Layer(OneSmall, Small) \cup Layer(Small, OneSmall) \cup Unary(OneSmall),
                                         t \in Strings({A, B}, 2)}
FamTwo(u) == {Cfg(x, BodyB, t, TRUE) : x \in Layer(One, Atoms) \cup Layer(Atoms, One) \cup Unary(One),
                                    t \in Strings({A, B}, 3)}
\* repetitions: all bounds, what they repeat and what comes after
RepInner == {Lit(<< A >>), Lit(<< >>), Dot, Or(<< Lit(<< A, B >>), Lit(<< A >>) >>), Not(Lit(<< B >>)), Ref("b"),
             Rep(Lit(<< A >>), 0, 1), Rep(Lit(<< A >>), 1, 2), Eof, And(<< Lit(<< A >>), ErrX(<< 33 >>) >>), Ref("x")}
RepBounds == {<< lo, hi >> \in (0..3) \X (-1..4) : hi = INF \/ lo <= hi}
RepAfter(x) == {x, And(<< x, Lit(<< A >>) >>), And(<< x, Rep(Lit(<< B >>), 0, INF) >>), Or(<< And(<< x, Lit(<< B >>) >>), Dot >>), Not(x),
                And(<< x, Not(Dot) >>), Rep(x, 0, INF), Rep(x, 1, 2)}
FamRep(u) == {Cfg(x, BodyB, t, TRUE) : x \in UNION {RepAfter(Rep(i, q[1], q[2])) : i \in RepInner, q \in RepBounds},
                                    t \in Strings({A, B}, 4)}
FamRepQuick(u) == {x \in FamRep(0) : Len(x.t) \in {0, 3, 4} => \A i \in 1..Len(x.t) : x.t[i] = A \/ i = Len(x.t)}
\* rules calling each other, and what can match nothing
RecBody == {Lit(<< A >>), Ref("b"), Ref("main"), And(<< Lit(<< A >>), Ref("main") >>), And(<< Ref("b"), Lit(<< A >>) >>),
            Or(<< Ref("b"), Lit(<< B >>) >>), Or(<< Lit(<< A >>), Ref("main") >>), And(<< Rep(Lit(<< A >>), 0, INF), Ref("main") >>),
            And(<< Not(Ref("b")), Ref("main") >>), Rep(Ref("main"), 0, INF), Rep(Ref("b"), 0, 1), Not(Ref("main")),
            And(<< Rep(Lit(<< B >>), 0, 1), Or(<< Ref("b"), Lit(<< A >>) >>) >>), Rep(Rep(Lit(<< A >>), 0, INF), 0, INF),
            Rep(Rep(Lit(<< A >>), 0, INF), 1, INF), And(<< >>), And(<< Lit(<< A >>), Ref("b") >>), Rep(And(<< >>), 2, INF),
            Or(<< And(<< Lit(<< A >>), Ref("main"), Lit(<< B >>) >>), Lit(<< >>) >>)}
FamRec(u) == {Cfg(x, y, t, d) : x \in RecBody, y \in RecBody, t \in Strings({A, B}, 3), d \in {TRUE}}
FamRecQuick(u) == {x \in FamRec(0) : Len(x.t) = 2}
FamRecMore(u) == {Cfg(x, y, t, d) : x \in RecBody, y \in RecBody, t \in Strings({A, B}, 5), d \in {TRUE}}
\* aborting expressions in every context
Abort == {ErrX(<< 33 >>), Ref("x"), And(<< Lit(<< A >>), ErrX(<< 33 >>) >>), And(<< Rep(Dot, 0, 2), Ref("x") >>), Ref("b")}
Context(x) == {x, And(<< x, Dot >>), And(<< Lit(<< A >>), x >>), Or(<< x, Dot >>), Or(<< Lit(<< A, B >>), x >>), Not(x), Rep(x, 0, INF), Rep(x, 0, 1),
               Rep(x, 2, 3), And(<< Rep(Lit(<< A >>), 0, INF), x >>), Or(<< Lit(<< A >>), x, Dot >>)}
FamAbort(u) == {Cfg(y, b, t, TRUE) : y \in UNION {Context(x) : x \in UNION {Context(z) : z \in Abort}},
                                  b \in {ErrX(<< A >>), And(<< Lit(<< A >>), Not(Ref("x")) >>)}, t \in Strings({A, B}, 2)}
FamAbortMore(u) == {Cfg(y, b, t, TRUE) : y \in UNION {Context(x) : x \in UNION {Context(z) : z \in Abort}},
                                      b \in {ErrX(<< A >>), And(<< Lit(<< A >>), Not(Ref("x")) >>), BodyB, Or(<< Ref("x"), Dot >>), Rep(Ref("x"), 0, 1)},
                                      t \in Strings({A, B}, 4)}
\* alternatives led by what matches nothing
Idle == {Lit(<< >>), And(<< >>), Not(Lit(<< A >>)), Not(Lit(<< B >>)), Rep(Lit(<< A >>), 0, 1), Rep(Lit(<< B >>), 0, INF), Rep(Dot, 0, 0),
         Eof, Not(Dot), Ref("b")}
Some == {Lit(<< A >>), Lit(<< B >>), Dot}
Firsts == {Lit(<< A, B >>), Lit(<< B >>)}
Side(P, Q) == {And(<< p, q >>) : p \in P, q \in Q}
Idler(P, Q) == {Or(<< x, y, z >>) : x \in Firsts, y \in Side(P, Q), z \in Firsts \cup {Dot}}
            \cup {Or(<< y, x >>) : x \in Firsts, y \in Side(P, Q)} \cup {Or(<< x, y >>) : x \in Firsts, y \in Side(P, Q)}
FamIdle(u) == {Cfg(x, Lit(<< >>), t, TRUE) : x \in Idler(Idle, Some), t \in Strings({A, B}, 2)}
FamIdleMore(u) == {Cfg(x, b, t, TRUE) : x \in Idler(Idle, Some \cup Idle), b \in {Lit(<< >>), Rep(Lit(<< A >>), 0, 1)}, t \in Strings({A, B}, 3)}
\* characters of 1, 2 and 4 bytes
UniAtoms == {Lit(<< C2 >>), Lit(<< A, C2 >>), Lit(<< C4, A >>), Dot, Class(<< C4 >>, << >>), Class(<< >>, << << A, C2 >> >>),
             Class(<< A >>, << << C2, C4 >> >>), Eof}
FamUni(u) == {Cfg(x, BodyB, t, FALSE) : x \in Layer(UniAtoms, UniAtoms) \cup Unary(UniAtoms), t \in Strings({A, C2, C4}, 3)}
FamUniMore(u) == {Cfg(x, BodyB, t, FALSE) : x \in Layer(UniAtoms, UniAtoms) \cup Unary(UniAtoms), t \in Strings({A, C2, C4}, 5)}
\* failures in texts of several lines
PosAtoms == {Lit(<< A, NL >>), Lit(<< NL, A >>), Dot, Class(<< A, CR >>, << >>)}
FamPos(u) == {Cfg(And(<< Rep(Dot, q, q), x >>), BodyB, t, FALSE) :
             q \in 0..4, x \in PosAtoms \cup {Not(Dot), Eof, ErrX(<< 33 >>), Rep(Lit(<< A >>), 0, INF)}, t \in Strings({A, NL, CR}, 4)}

FamPosMore(u) == {Cfg(And(<< Rep(Dot, q, q), x >>), BodyB, t, FALSE) :
             q \in 0..6, x \in PosAtoms \cup {Not(Dot), Eof, ErrX(<< 33 >>), Rep(Lit(<< A >>), 0, INF)}, t \in Strings({A, NL, CR}, 6)}
\* what the walk goes through: rules kept, given up and open
DbgB == {BodyB, And(<< Ref("x") >>), Or(<< And(<< Lit(<< A >>), Ref("x") >>), Lit(<< B >>) >>)}
DbgAtoms == {Lit(<< A >>), Ref("b"), Ref("x"), ErrX(<< 33 >>)}
FamDebug(u) == {Cfg(x, b, t, TRUE) : x \in Layer(Layer(DbgAtoms, DbgAtoms), {Ref("b"), Dot}) \cup Unary(Layer(DbgAtoms, DbgAtoms)),
                                  b \in DbgB, t \in Strings({A, B}, 3)}

(* ------------------------------ behaviours ------------------------------ *)
\* by name, so that only the one used is built
Configs(w) ==
    CASE w = "FamAbort" -> FamAbort(0)
      [] w = "FamAbortMore" -> FamAbortMore(0)
      [] w = "FamDebug" -> FamDebug(0)
      [] w = "FamIdle" -> FamIdle(0)
      [] w = "FamIdleMore" -> FamIdleMore(0)
      [] w = "FamOne" -> FamOne(0)
      [] w = "FamPos" -> FamPos(0)
      [] w = "FamPosMore" -> FamPosMore(0)
      [] w = "FamRec" -> FamRec(0)
      [] w = "FamRecMore" -> FamRecMore(0)
      [] w = "FamRecQuick" -> FamRecQuick(0)
      [] w = "FamRep" -> FamRep(0)
      [] w = "FamRepQuick" -> FamRepQuick(0)
      [] w = "FamTwo" -> FamTwo(0)
      [] w = "FamTwoQuick" -> FamTwoQuick(0)
      [] w = "FamUni" -> FamUni(0)
      [] w = "FamUniMore" -> FamUniMore(0)

Init == \E x \in Configs(Family) : Mc!Start(x)
Finish == /\ m = "done" /\ Emit
          /\ PrintT(<< "BEHAVIOUR", ToJson([rules |-> c.r, text |-> c.t, d |-> c.d,
                       res |-> IF Mc!Accepted THEN [k |-> "ok", ast |-> Tokens(ns[1])]
                               ELSE [k |-> "err", pos |-> PosAt(c.t, f.n), lb |-> LineBefore(c.t, f.n), la |-> LineAfter(c.t, f.n),
                                     prio |-> f.prio, d |-> f.d, s |-> f.s, walk |-> f.walk]]) >>)
          /\ m' = "told" /\ UNCHANGED << c, e, st, ns, f, stack, seen >>
Next == Mc!Next \/ Finish
Spec == Init /\ [][Next]_Mc!vars
FairSpec == Spec /\ WF_Mc!vars(Next)

(* ------------------------------ properties ------------------------------ *)
Done == m = "done"
Mean == Meaning(c.r, c.t)
Plain(fl) == [fl EXCEPT !.walk = << >>]

TypeOK ==
    /\ m \in {"eval", "ok", "fail", "done", "told"}
    /\ st.n \in 0..Len(c.t)
    /\ m = "fail" => f.n \in 0..Len(c.t)
    /\ \A i \in DOMAIN stack : stack[i].k \in {"seq", "or", "not", "rep", "rule"}

\* C01
Recognises == Done => Mc!Accepted = Mean.ok
NeverGivesBack ==   \* what is tried restarts where the construct started
    \A i \in DOMAIN stack : stack[i].k \in {"or", "not", "rep"} => stack[i].s.n <= st.n \/ m # "eval"

\* C02
Derivation == Done /\ Mc!Accepted =>
    /\ Mean.ok /\ ns[1] = Mean.ast
    /\ ns[1].n = "main" /\ Yield(ns[1]) = c.t

\* C03: replacing every character by another one changes nothing else
Swap(ch) == CASE ch = C2 -> C4 [] ch = C4 -> C2 [] OTHER -> ch
SwapText(t) == [i \in DOMAIN t |-> Swap(t[i])]
RECURSIVE SwapExpr(_)
SwapExpr(x) ==
    CASE x.k = "lit"   -> Lit(SwapText(x.s))
      [] x.k = "and"   -> And([i \in DOMAIN x.es |-> SwapExpr(x.es[i])])
      [] x.k = "or"    -> Or([i \in DOMAIN x.es |-> SwapExpr(x.es[i])])
      [] x.k = "not"   -> Not(SwapExpr(x.e))
      [] x.k = "rep"   -> Rep(SwapExpr(x.e), x.lo, x.hi)
      [] OTHER         -> x
HasClass(x) == x.k = "match" \/ (x.k \in {"and", "or"} /\ \E i \in DOMAIN x.es : x.es[i].k = "match") \/ (x.k \in {"not", "rep"} /\ x.e.k = "match")
WidthOne == Done /\ ~HasClass(c.r["main"]) =>
    LET o == Meaning([x \in DOMAIN c.r |-> SwapExpr(c.r[x])], SwapText(c.t)) IN
    /\ o.ok = Mc!Accepted
    /\ ~o.ok => o.f.n = f.n /\ o.f.d = f.d
    /\ o.ok => Yield(o.ast) = SwapText(Yield(ns[1]))

\* C04: counting forward, as somebody reading the text would
RECURSIVE CountTo(_, _)
CountTo(t, n) ==
    IF n = 0 THEN [n |-> 0, row |-> 0, col |-> 0, sl |-> 0]
    ELSE LET p == CountTo(t, n - 1) IN
         CASE t[n] = NL -> [n |-> n, row |-> p.row + 1, col |-> 0, sl |-> n]
           [] t[n] = CR -> [n |-> n, row |-> p.row, col |-> 0, sl |-> p.sl]
           [] OTHER     -> [n |-> n, row |-> p.row, col |-> p.col + 1, sl |-> p.sl]
Located == Done /\ ~Mc!Accepted =>
    /\ f.n \in 0..Len(c.t)
    /\ PosAt(c.t, f.n) = CountTo(c.t, f.n)
    /\ \A i \in DOMAIN LineBefore(c.t, f.n) : LineBefore(c.t, f.n)[i] # NL
    /\ \A i \in DOMAIN LineAfter(c.t, f.n) : LineAfter(c.t, f.n)[i] \notin {NL, CR}
    /\ \E p \in 0..Len(c.t), q \in 0..Len(c.t) :
          SubSeq(c.t, 1, p) \o LineBefore(c.t, f.n) \o LineAfter(c.t, f.n) \o SubSeq(c.t, q + 1, Len(c.t)) = c.t

\* C05
Selected == Done /\ ~Mc!Accepted /\ f.prio = "normal" => ~Mean.ok /\ Plain(f) = Plain(Mean.f)
FurthestOfAlternatives ==
    m = "fail" /\ stack # << >> /\ Last(stack).k = "or" /\ Last(stack).best.d # "none" /\ ~Critical(f) =>
        LET x == Deeper(Last(stack).best, f) IN x.n >= f.n /\ x.n >= Last(stack).best.n

\* C06: an abort that no lookahead shields is the answer
Shielded == \E i \in DOMAIN stack : stack[i].k = "not"
Aborting == m = "fail" /\ Critical(f) /\ ~Shielded
StaysAborted == [][Aborting => f' = f /\ (m' = "fail" \/ m' = "done")]_Mc!vars
AbortIsSaid == Done /\ ~Mc!Accepted /\ Critical(f) => ~Mean.ok /\ Plain(f) = Plain(Mean.f)
NoAbortLost == Done /\ ~Mean.ok /\ Critical(Mean.f) => ~Mc!Accepted /\ Plain(f) = Plain(Mean.f)

\* C07
Ends == <>(m \in {"done", "told"})
NoLoopOpen ==
    \A i, j \in DOMAIN stack :
        i < j /\ stack[i].k = "rule" /\ stack[j].k = "rule" /\ stack[i].n = stack[j].n => stack[i].nm # stack[j].nm
StackBounded == Cardinality({i \in DOMAIN stack : stack[i].k = "rule"}) <= 2 * (Len(c.t) + 1)
NeverStuck == m \notin {"done", "told"} => ENABLED Next
IdleOnlyIfNeeded == \A i \in DOMAIN stack : stack[i].k = "rep" /\ stack[i].x.hi = INF => stack[i].cnt <= stack[i].x.lo + Len(c.t)

\* C08
WithinBounds == \A i \in DOMAIN stack : stack[i].k = "rep" /\ stack[i].x.hi # INF => stack[i].cnt < stack[i].x.hi
SameMeaning == Done => Mc!Outcome = Mean \/ (~c.d /\ Mc!Accepted = Mean.ok /\ (~Mean.ok => f = Plain(Mean.f)))

\* C09
DebugOnlyAddsPath == Done =>
    /\ Mc!Accepted = Mean.ok
    /\ ~Mean.ok => /\ Plain(f) = Plain(Mean.f)
                   /\ f.walk = IF c.d THEN Mean.f.walk ELSE << >>
    /\ Mean.ok => ns[1] = Mean.ast
=============================================================================
