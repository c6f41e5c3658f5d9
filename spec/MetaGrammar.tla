---------------------------- MODULE MetaGrammar ----------------------------
(* The grammar of grammars, as documented.  Generated by lib/meta.py. *)
EXTENDS PegBase

ShownClass(c, r, dbg) == [k |-> "match", c |-> c, r |-> r, dbg |-> dbg]

MetaGrammar ==
       "main" :> Ref("grammar")
    @@ "grammar" :> Rep(Or(<< Ref("rule"), Ref("module") >>), 1, INF)
    @@ "module" :> And(<< Ref("_"), Ref("mod_name"), Ref("_"), Lit(<< 123 >>), Ref("_"), Ref("grammar"), Ref("_"), Lit(<< 125 >>), Ref("_eol"), Ref("_") >>)
    @@ "mod_name" :> Ref("symbol")
    @@ "symbol" :> And(<< ShownClass(<< 95 >>, << << 97, 122 >>, << 65, 90 >>, << 48, 57 >> >>, << 91, 40, 39, 97, 39, 44, 32, 39, 122, 39, 41, 44, 32, 40, 39, 65, 39, 44, 32, 39, 90, 39, 41, 44, 32, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 93 >>), Rep(ShownClass(<< 95, 39, 34 >>, << << 97, 122 >>, << 65, 90 >>, << 48, 57 >> >>, << 91, 40, 39, 97, 39, 44, 32, 39, 122, 39, 41, 44, 32, 40, 39, 65, 39, 44, 32, 39, 90, 39, 41, 44, 32, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 93 >>), 0, INF) >>)
    @@ "rule" :> And(<< Ref("_"), Ref("rule_name"), Ref("_"), Lit(<< 61 >>), Ref("_"), Ref("expr"), Ref("_eol"), Ref("_") >>)
    @@ "rule_name" :> And(<< Rep(Lit(<< 46 >>), 0, 1), Ref("symbol"), Rep(And(<< Lit(<< 46 >>), Ref("symbol") >>), 0, INF) >>)
    @@ "expr" :> Ref("or")
    @@ "or" :> And(<< Ref("and"), Rep(And(<< Ref("_"), Lit(<< 47 >>), Ref("_"), Ref("or") >>), 0, 1) >>)
    @@ "error" :> And(<< Lit(<< 101, 114, 114, 111, 114 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Ref("literal"), Ref("_"), Lit(<< 41 >>) >>)
    @@ "and" :> Or(<< Ref("error"), And(<< Ref("rep_or_neg"), Rep(And(<< Ref("_1"), Ref("_"), Not(And(<< Ref("rule_name"), Ref("_"), Or(<< Lit(<< 61 >>), Lit(<< 123 >>) >>) >>)), Ref("and") >>), 0, INF) >>) >>)
    @@ "_1" :> Or(<< Lit(<< 32 >>), Ref("eol") >>)
    @@ "rep_or_neg" :> Or(<< And(<< Ref("atom_or_par"), Rep(Or(<< Lit(<< 42 >>), Lit(<< 43 >>), Lit(<< 63 >>) >>), 0, 1) >>), And(<< Lit(<< 33 >>), Ref("atom_or_par") >>) >>)
    @@ "atom_or_par" :> Or(<< Ref("atom"), Ref("parenth") >>)
    @@ "parenth" :> And(<< Lit(<< 40 >>), Ref("_"), Ref("expr"), Ref("_"), Or(<< Lit(<< 41 >>), ErrX(<< 117, 110, 98, 97, 108, 97, 110, 99, 101, 100, 32, 112, 97, 114, 101, 116, 104, 101, 115, 105, 115, 58, 32, 109, 105, 115, 115, 105, 110, 103, 32, 39, 41, 39 >>) >>) >>)
    @@ "atom" :> Or(<< Ref("literal"), Ref("match"), Ref("rule_name"), Ref("dot") >>)
    @@ "literal" :> Or(<< Ref("lit_noesc"), Ref("lit_esc") >>)
    @@ "lit_noesc" :> And(<< Ref("_'"), Rep(And(<< Not(Ref("_'")), Dot >>), 0, INF), Ref("_'") >>)
    @@ "_'" :> Lit(<< 39 >>)
    @@ "lit_esc" :> And(<< Ref("_\""), Rep(Or(<< Ref("esc_char"), Ref("hex_char"), And(<< Not(Ref("_\"")), Dot >>) >>), 0, INF), Ref("_\"") >>)
    @@ "_\"" :> Lit(<< 34 >>)
    @@ "esc_char" :> Or(<< Lit(<< 92, 114 >>), Lit(<< 92, 110 >>), Lit(<< 92, 116 >>), Lit(<< 92, 92 >>), Lit(<< 92, 34 >>) >>)
    @@ "hex_char" :> And(<< Lit(<< 92, 48, 120 >>), ShownClass(<< >>, << << 48, 57 >>, << 65, 70 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 44, 32, 40, 39, 65, 39, 44, 32, 39, 70, 39, 41, 93 >>), ShownClass(<< >>, << << 48, 57 >>, << 65, 70 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 44, 32, 40, 39, 65, 39, 44, 32, 39, 70, 39, 41, 93 >>) >>)
    @@ "eol" :> Or(<< Lit(<< 13, 10 >>), Lit(<< 10 >>), Lit(<< 13 >>) >>)
    @@ "_eol" :> And(<< Rep(Or(<< Lit(<< 32 >>), Ref("comment") >>), 0, INF), Ref("eol") >>)
    @@ "match" :> And(<< Lit(<< 91 >>), Or(<< And(<< Ref("mchars"), Rep(Ref("mbetween"), 0, INF) >>), Rep(Ref("mbetween"), 1, INF) >>), Lit(<< 93 >>) >>)
    @@ "mchars" :> Rep(And(<< Not(Lit(<< 93 >>)), Not(And(<< Dot, Lit(<< 45 >>) >>)), Dot >>), 1, INF)
    @@ "mbetween" :> And(<< Dot, Lit(<< 45 >>), Dot >>)
    @@ "dot" :> Lit(<< 46 >>)
    @@ "_" :> Rep(Or(<< Lit(<< 32 >>), Ref("eol"), Ref("comment") >>), 0, INF)
    @@ "comment" :> Or(<< Ref("line_comment"), Ref("mline_comment") >>)
    @@ "line_comment" :> And(<< Lit(<< 47, 47 >>), Rep(And(<< Not(Ref("eol")), Dot >>), 0, INF), Ref("eol") >>)
    @@ "mline_comment" :> And(<< Lit(<< 47, 42 >>), Rep(And(<< Not(Lit(<< 42, 47 >>)), Dot >>), 0, INF), Lit(<< 42, 47 >>) >>)
=============================================================================
