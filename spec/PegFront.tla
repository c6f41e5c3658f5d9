------------------------------ MODULE PegFront ------------------------------
(* Reading a grammar: what rules the tree of a grammar text (the parse of the text
   with MetaGrammar) stands for.  Names are sequences of code points, and the tree
   is the one the parser gives, nothing pruned or merged.                      *)
EXTENDS MetaGrammar

Kids(nd, S) == SelectSeq(nd.c, LAMBDA x : x.t = "r" /\ x.n \in S)
Kid(nd, S)  == Kids(nd, S)[1]
Has(nd, S)  == Kids(nd, S) # << >>

Unit(xs, Many(_)) == IF Len(xs) = 1 THEN xs[1] ELSE Many(xs)

(* ---- literals ---- *)
Inside(s) == SubSeq(s, 2, Len(s) - 1)
HexDigit(ch) == IF ch <= 57 THEN ch - 48 ELSE ch - 55
Escaped(s) ==                                  \* s: backslash and a letter
    CASE s[2] = 114 -> << 13 >>
      [] s[2] = 110 -> << 10 >>
      [] s[2] = 116 -> << 9 >>
      [] OTHER      -> << s[2] >>
Piece(nd) ==
    IF nd.t = "v" THEN nd.s
    ELSE LET s == Yield(nd) IN
         IF nd.n = "esc_char" THEN Escaped(s) ELSE << 16 * HexDigit(s[4]) + HexDigit(s[5]) >>
RECURSIVE Pieces(_, _, _)
Pieces(ns, a, b) ==
    IF a > b THEN << >> ELSE IF a = b THEN Piece(ns[a])
    ELSE LET h == (a + b) \div 2 IN Pieces(ns, a, h) \o Pieces(ns, h + 1, b)
LiteralOf(nd) ==
    LET x == Kid(nd, {"lit_noesc", "lit_esc"}) IN
    IF x.n = "lit_noesc" THEN Inside(Yield(x)) ELSE Pieces(x.c, 2, Len(x.c) - 1)

(* ---- classes ---- *)
ClassOf(nd) ==
    LET rs == Kids(nd, {"mbetween"}) IN
    Class(IF Has(nd, {"mchars"}) THEN Yield(Kid(nd, {"mchars"})) ELSE << >>,
          [i \in 1..Len(rs) |-> LET s == Yield(rs[i]) IN << s[1], s[3] >>])

(* ---- expressions ---- *)
RECURSIVE ExprOf(_), OrMembers(_), AndMembers(_), Concat(_)
Concat(xs) == IF xs = << >> THEN << >> ELSE Head(xs) \o Concat(Tail(xs))
AtomOf(nd) ==
    LET x == nd.c[1] IN
    CASE x.n = "literal"   -> Lit(LiteralOf(x))
      [] x.n = "match"     -> ClassOf(x)
      [] x.n = "rule_name" -> Ref(Yield(x))
      [] x.n = "dot"       -> Dot
AtomOrParOf(nd) ==
    LET x == nd.c[1] IN
    IF x.n = "atom" THEN AtomOf(x) ELSE ExprOf(Kid(x, {"expr"}))
RepOrNegOf(nd) ==
    LET x == AtomOrParOf(Kid(nd, {"atom_or_par"})) IN
    IF Len(nd.c) = 1 THEN x
    ELSE IF nd.c[1].t = "v" THEN Not(x)
    ELSE CASE nd.c[2].s = << 42 >> -> Rep(x, 0, INF)
           [] nd.c[2].s = << 43 >> -> Rep(x, 1, INF)
           [] nd.c[2].s = << 63 >> -> Rep(x, 0, 1)
AndMembers(nd) ==
    IF Has(nd, {"error"}) THEN << ErrX(LiteralOf(Kid(Kid(nd, {"error"}), {"literal"}))) >>
    ELSE LET more == Kids(nd, {"and"}) IN
         << RepOrNegOf(Kid(nd, {"rep_or_neg"})) >> \o Concat([i \in 1..Len(more) |-> AndMembers(more[i])])
OrMembers(nd) ==
    << Unit(AndMembers(Kid(nd, {"and"})), And) >> \o (IF Has(nd, {"or"}) THEN OrMembers(Kid(nd, {"or"})) ELSE << >>)
ExprOf(nd) == Unit(OrMembers(Kid(nd, {"or"})), Or)

(* ---- rules and modules ---- *)
RECURSIVE GrammarOf(_), Gather(_, _, _)
\* xs[i], ... on top of what env already has
Gather(xs, i, env) ==
    IF i > Len(xs) THEN env
    ELSE IF xs[i].n = "rule"
         THEN Gather(xs, i + 1, Yield(Kid(xs[i], {"rule_name"})) :> ExprOf(Kid(xs[i], {"expr"})) @@ env)   \* replaces
         ELSE Gather(xs, i + 1, env @@ GrammarOf(Kid(xs[i], {"grammar"})))                               \* keeps
GrammarOf(nd) == LET xs == Kids(nd, {"rule", "module"}) IN Gather(xs, 1, << >>)

\* the tree of a whole grammar text
FromPeg(ast) == GrammarOf(Kid(ast, {"grammar"}))
=============================================================================
