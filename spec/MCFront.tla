------------------------------ MODULE MCFront ------------------------------
(* Reading grammars, exhaustively over families of small grammars and layouts: the
   machine with the grammar of grammars, then PegFront, gives back what was written.

   A configuration is [t |-> text, want |-> rules, or NOTHING when only the machine
   knows].                                                                     *)
EXTENDS PegSem, PegFront, Json, SequencesExt
P == INSTANCE PegText

VARIABLES c, m, e, st, ns, f, stack, seen, step
CONSTANTS Family, Emit

NOTHING == << >>
CfgRules(x) == MetaGrammar
CfgText(x)  == x.t
CfgDebug(x) == FALSE
Mc == INSTANCE PegMachine WITH RulesOf <- CfgRules, TextOf <- CfgText, DebugOf <- CfgDebug

Cfg(t, want) == [t |-> t, want |-> want]
MAIN == << 109, 97, 105, 110 >>
RuleText(x, L(_, _)) == P!Fill(P!ShowGrammar(<< << "r", MAIN, x >> >>), L)
Rules1(x) == << MAIN :> x >>

(* ------------------------------ C12: structure ------------------------------ *)
LA == Lit(<< 97 >>)
RB == Ref(<< 98 >>)
At == {LA, RB}
Un(X) == {Not(x) : x \in X} \cup {Rep(x, 0, INF) : x \in X} \cup {Rep(x, 1, INF) : x \in X} \cup {Rep(x, 0, 1) : x \in X}
Two(X, Y) == {And(<< x, y >>) : x \in X, y \in Y} \cup {Or(<< x, y >>) : x \in X, y \in Y}
ErrA == ErrX(<< 97 >>)
Three(X) == {And(<< x, RB, Dot >>) : x \in X} \cup {Or(<< RB, x, Dot >>) : x \in X} \cup {And(<< Dot, x, ErrA >>) : x \in X} \cup {Or(<< x, ErrA, Dot >>) : x \in X}
Lev1 == Un(At) \cup Two(At, {Dot, ErrA}) \cup {ErrA, Dot} \cup At
Lev2 == Un(Lev1) \cup Two(Lev1, {LA}) \cup Two({RB}, Lev1) \cup Three(Lev1)
FamStructQuick(u) == {Cfg(RuleText(x, P!Tight), Rules1(x)) : x \in Lev1 \cup Lev2}
FamStruct(u) == {Cfg(RuleText(x, P!Tight), Rules1(x)) : x \in Un(Lev2) \cup Two(Lev2, {RB}) \cup Two({LA}, Lev2) \cup Three(Lev2)}
             \cup {Cfg(RuleText(x, P!Plain), Rules1(x)) : x \in Lev1 \cup Lev2}

(* ------------------------------ C13: literals ------------------------------ *)
Strings(S, k) == UNION {[1..i -> S] : i \in 0..k}
Single(S, k) == {Cfg(RuleText(Lit(s), P!Tight), Rules1(Lit(s))) : s \in Strings(S, k)}
DqText(s) == MAIN \o << 61, 34 >> \o s \o << 34, 10 >>
\* bodies that end where they seem to: no quote but escaped ones
RECURSIVE FlatSeq(_)
FlatSeq(xs) == IF xs = << >> THEN << >> ELSE Head(xs) \o FlatSeq(Tail(xs))
Pieces2 == {<< 97 >>, << 39 >>, << 92, 110 >>, << 92, 114 >>, << 92, 116 >>, << 92, 92 >>, << 92, 34 >>, << 92, 48, 120, 52, 49 >>, << 92, 48, 120, 70, 102 >>,
            << 92, 48, 120, 70, 70 >>, << 92, 48, 120, 48, 48 >>, << 92, 113 >>, << 92, 48 >>, << 92, 48, 120 >>, << 233 >>, << 128512 >>, << 10 >>, << 47, 47 >>, << 110 >>, << 120, 52, 49 >>}
Double(k) == {LET s == FlatSeq(b) IN Cfg(DqText(s), Rules1(Lit(P!Unescape(s)))) : b \in Strings(Pieces2, k)}
Classes(S, R) == {Cfg(RuleText(x, P!Tight), Rules1(x)) :
                    x \in {Class(cs, rs) : cs \in Strings(S, 2), rs \in Strings(R, 2)} \ {Class(<< >>, << >>)}}
ErrText(s) == MAIN \o << 61 >> \o P!Error \o << 40, 34 >> \o s \o << 34, 41, 10 >>
Errors == {LET s == FlatSeq(b) IN Cfg(ErrText(s), Rules1(ErrX(P!Unescape(s)))) : b \in Strings(Pieces2, 1)}
FamLitQuick(u) == Single({97, 92, 34, 110}, 2) \cup Single({233, 10, 47}, 2) \cup Double(1) \cup Errors
               \cup {x \in Double(2) : Len(x.t) <= 14} \cup Classes({97, 92}, {<< 97, 122 >>, << 48, 57 >>})
FamLit(u) == Single({97, 92, 34, 110, 48, 120, 10, 128512}, 3) \cup Double(2) \cup Errors
          \cup Classes({97, 92, 39, 34, 91, 128512}, {<< 97, 122 >>, << 48, 57 >>, << 233, 128512 >>, << 122, 97 >>, << 93, 97 >>})

(* ------------------------------ C14: layout ------------------------------ *)
\* " /* */" and variations, "//...": they start with a space, as after a '/' they would not be read
BC(s) == << 32, 47, 42 >> \o s \o << 42, 47 >>
LC(s, eol) == << 32, 47, 47 >> \o s \o eol
FillO == {<< >>, << 32, 32 >>, << 10 >>, << 13 >>, << 13, 10 >>, << 10, 10, 32 >>, BC(<< >>), BC(<< 39 >>), BC(<< 98, 61, 39, 120, 39, 10 >>), BC(<< 42 >>),
          BC(<< 47, 47 >>), LC(<< >>, << 10 >>), LC(<< 34 >>, << 13 >>), LC(<< 47, 42 >>, << 13, 10 >>), LC(<< 97, 61, 98 >>, << 10 >>), BC(<< 125 >>) \o LC(<< 40 >>, << 10, 13 >>)}
FillS == {<< 32 >>, << 32, 32 >>, << 10 >>, << 13 >>, << 13, 10 >>, BC(<< 39 >>), LC(<< 47, 42 >>, << 10 >>), << 10 >> \o LC(<< 61 >>, << 13 >>), << 10, 47, 42, 42, 47 >>}
FillE == {<< 10 >>, << 13 >>, << 13, 10 >>, << 32, 10 >>, << 10, 10 >>, << 10, 32, 13, 10 >>, BC(<< 39 >>) \o << 10 >>, << 47, 42, 10, 42, 47, 10 >>, LC(<< 98 >>, << 10, 10 >>),
          << 13, 10 >> \o LC(<< 98, 61 >>, << 10 >>), << 10 >> \o BC(<< 120, 61, 39 >>)}
Filler(k) == CASE k = "o" -> FillO [] k = "s" -> FillS [] k = "e" -> FillE
G1 == << << "r", MAIN, Or(<< And(<< LA, RB >>), Rep(Or(<< LA, Dot >>), 0, INF) >>) >>, << "r", << 98 >>, Lit(<< 47, 47 >>) >> >>
G2 == << << "m", << 109 >>, << << "r", << 98 >>, And(<< LA, ErrA >>) >> >> >>, << "r", MAIN, Not(RB) >> >>
G3 == << << "r", MAIN, And(<< RB, RB >>) >>, << "r", << 98 >>, Lit(<< 47, 42 >>) >> >>
Gs == {G1, G2, G3}
\* one hole filled in every way
OneHole(g) == LET ps == P!ShowGrammar(g) IN
    UNION {IF ps[h].k = "text" THEN {}
           ELSE {Cfg(P!Fill(ps, LAMBDA i, k : IF i = h THEN x ELSE P!Tight(i, k)), << P!Scope(g) >>) : x \in Filler(ps[h].k)} : h \in DOMAIN ps}
\* every hole filled in the same way
AllHoles(g, O, S, E) == {Cfg(P!Fill(P!ShowGrammar(g), LAMBDA i, k : CASE k = "o" -> o [] k = "s" -> s [] k = "e" -> x), << P!Scope(g) >>) : o \in O, s \in S, x \in E}
FamLayoutQuick(u) == OneHole(G2) \cup {x \in OneHole(G3) : Len(x.t) < 30}
                  \cup AllHoles(G3, {<< 13 >>, BC(<< 39 >>)}, {<< 13, 10 >>, LC(<< 61 >>, << 10 >>)}, {<< 13 >>, LC(<< 98 >>, << 10, 10 >>)})
FamLayout(u) == UNION {OneHole(g) : g \in Gs} \cup UNION {AllHoles(g, FillO, FillS, {<< 10 >>, << 13 >>, LC(<< 98 >>, << 10, 10 >>)}) : g \in {G2, G3}}

(* ------------------------------ C16: names, duplicates, modules ------------------------------ *)
Names == {<< 97 >>, << 98 >>}
RuleItems == {<< "r", n, Lit(<< i >>) >> : n \in Names, i \in {49, 50}}
ModItems(X) == {<< "m", << 97 >>, x >> : x \in X}
Singles(X) == {<< x >> : x \in X}
Pairs(X, Y) == {<< x, y >> : x \in X, y \in Y}
Items1 == RuleItems \cup ModItems(Singles(RuleItems))
FamModQuick(u) == {Cfg(P!Fill(P!ShowGrammar(g), P!Tight), << P!Scope(g) >>) :
                  g \in Pairs(Items1, Items1) \cup {<< x, y, z >> : x \in ModItems(Singles({<< "r", << 97 >>, Lit(<< 51 >>) >>})), y \in {<< "r", << 97 >>, Lit(<< 52 >>) >>}, z \in Items1}}
Items2 == Items1 \cup ModItems(Pairs(RuleItems, {<< "r", << 97 >>, Lit(<< 51 >>) >>})) \cup ModItems(Singles(ModItems(Singles(RuleItems))))
               \cup ModItems(Pairs(ModItems(Singles(RuleItems)), RuleItems))
FamMod(u) == {Cfg(P!Fill(P!ShowGrammar(g), P!Tight), << P!Scope(g) >>) : g \in Pairs(Items2, Items2) \cup {<< x, y, z >> : x \in Items1, y \in Items1, z \in Items1}}
\* names as they can be written
NameOf == {<< 46, 97 >>, << 97, 46, 98 >>, << 46, 97, 46, 57, 46, 95 >>, << 95 >>, << 57 >>, << 97, 39 >>, << 97, 34, 95 >>, << 101, 114, 114, 111, 114 >>, << 101, 114, 114, 111, 114, 115 >>,
           << 109, 97, 105, 110, 50 >>, << 65, 97, 48 >>}
FamNames(u) == {LET g == << << "r", n, LA >>, << "r", MAIN, And(<< Ref(n), Rep(Ref(n), 0, 1) >>) >> >> IN Cfg(P!Fill(P!ShowGrammar(g), P!Tight), << P!Scope(g) >>) : n \in NameOf}
FamModNames(u) == FamModQuick(0) \cup FamNames(0)
FamModNamesMore(u) == FamMod(0) \cup FamNames(0)

(* ------------------------------ C15: damaged texts ------------------------------ *)
Sound == {MAIN \o << 61, 39, 97, 39, 47, 40, 98, 32, 46, 41, 42, 10 >>,                        \* main='a'/(b .)*
          << 97, 61, 91, 97, 45, 122, 93, 32, 101, 114, 114, 111, 114, 40, 34, 92, 110, 34, 41, 10 >>,     \* a=[a-z] error("\n")
          << 109, 123, 97, 61, 33, 98, 47, 47, 99, 10, 10, 125, 13, 10, 46, 98, 61, 47, 42, 42, 47, 46, 13 >>}   \* m{a=!b//c .. } .b=/**/.
Without(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
With(t, i, ch) == SubSeq(t, 1, i) \o << ch >> \o SubSeq(t, i + 1, Len(t))
Chars == {32, 10, 13, 33, 34, 39, 40, 41, 42, 45, 46, 47, 61, 63, 91, 92, 93, 97, 123, 125, 233, 9}
Damaged(t, S) == {Without(t, i) : i \in 1..Len(t)} \cup {SubSeq(t, 1, i) : i \in 0..Len(t)} \cup {With(t, i, ch) : i \in 0..Len(t), ch \in S}
FamDamagedQuick(u) == {Cfg(t, NOTHING) : t \in UNION {Damaged(s, {32, 40, 39}) : s \in Sound}}
                   \cup {Cfg(t, NOTHING) : t \in Strings(Chars, 1)}
FamDamaged(u) == {Cfg(t, NOTHING) : t \in UNION {Damaged(s, Chars) : s \in Sound} \cup Strings(Chars, 2)}

(* ------------------------------ behaviours ------------------------------ *)
\* by name, so that only the one used is built
Configs(w) ==
    CASE w = "FamDamaged" -> FamDamaged(0)
      [] w = "FamDamagedQuick" -> FamDamagedQuick(0)
      [] w = "FamLayout" -> FamLayout(0)
      [] w = "FamLayoutQuick" -> FamLayoutQuick(0)
      [] w = "FamLit" -> FamLit(0)
      [] w = "FamLitQuick" -> FamLitQuick(0)
      [] w = "FamMod" -> FamMod(0)
      [] w = "FamModNames" -> FamModNames(0)
      [] w = "FamModNamesMore" -> FamModNamesMore(0)
      [] w = "FamModQuick" -> FamModQuick(0)
      [] w = "FamNames" -> FamNames(0)
      [] w = "FamStruct" -> FamStruct(0)
      [] w = "FamStructQuick" -> FamStructQuick(0)

Init == \E x \in Configs(Family) : Mc!Start(x) /\ step = 0
Env == FromPeg(ns[1])
Told == IF Mc!Accepted THEN [k |-> "rules", rules |-> LET ks == SetToSeq(DOMAIN Env) IN [i \in DOMAIN ks |-> << ks[i], Env[ks[i]] >>]]
        ELSE [k |-> "err", pos |-> PosAt(c.t, f.n), lb |-> LineBefore(c.t, f.n), la |-> LineAfter(c.t, f.n), prio |-> f.prio, d |-> f.d]
Finish == /\ m = "done" /\ Emit
          /\ PrintT(<< "BEHAVIOUR", ToJson([text |-> c.t, res |-> Told]) >>)
          /\ m' = "told" /\ step' = step + 1 /\ UNCHANGED << c, e, st, ns, f, stack, seen >>
Next == (Mc!Next /\ step' = step + 1) \/ Finish
Spec == Init /\ [][Next]_<< Mc!vars, step >>
\* the machine is deterministic: one state per text and step
View == << c.t, step >>

(* ------------------------------ properties ------------------------------ *)
Done == m = "done"
\* what was written is what is read
ReadsBack == Done /\ c.want # NOTHING => Mc!Accepted /\ Env = c.want[1]
\* reading ends in rules or in an error in the text, as the grammar of grammars means
SaysWhere == Done =>
    LET mean == Meaning(MetaGrammar, c.t) IN
    IF Mc!Accepted THEN mean.ok /\ Env # << >> ELSE ~mean.ok /\ f.n \in 0..Len(c.t) /\ mean.f.n = f.n /\ mean.f.d = f.d /\ mean.f.prio = f.prio
Critically == Done /\ ~Mc!Accepted => (f.prio = "critical" <=> f.d = "user")
TypeOK == st.n \in 0..Len(c.t)
NeverStuck == m \notin {"done", "told"} => ENABLED Next
=============================================================================
