---------------------------- MODULE RustGrammar ----------------------------
(* The Rust that generated code is written in.  Generated by lib/rustgram.py. *)
EXTENDS PegBase

ShownClass(c, r, dbg) == Class(c, r)

RustGrammar ==
       "main" :> And(<< Ref("_"), Rep(And(<< Ref("rule"), Rep(And(<< And(<< Ref("_"), Lit(<< 44 >>) >>), Ref("_"), Ref("rule") >>), 0, INF) >>), 0, 1), Ref("_") >>)
    @@ "rule" :> And(<< Ref("str"), Ref("_"), Lit(<< 61, 62 >>), Ref("_"), Ref("expr") >>)
    @@ "expr" :> Or(<< Ref("lit"), Ref("error"), Ref("dot"), Ref("ematch"), Ref("and"), Ref("or"), Ref("not"), Ref("rep"), Ref("ref"), Ref("paren") >>)
    @@ "paren" :> Or(<< And(<< Lit(<< 40 >>), Ref("_"), Ref("expr"), Ref("_"), Lit(<< 41 >>) >>), And(<< Lit(<< 123 >>), Ref("_"), Ref("expr"), Ref("_"), Lit(<< 125 >>) >>) >>)
    @@ "lit" :> And(<< Lit(<< 108, 105, 116, 33 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Ref("str"), Ref("_"), Lit(<< 41 >>) >>)
    @@ "error" :> And(<< Lit(<< 101, 114, 114, 111, 114, 33 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Ref("str"), Ref("_"), Lit(<< 41 >>) >>)
    @@ "dot" :> And(<< Lit(<< 100, 111, 116, 33 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Lit(<< 41 >>) >>)
    @@ "ematch" :> And(<< Lit(<< 101, 109, 97, 116, 99, 104, 33 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), And(<< Lit(<< 99, 104, 108, 105, 115, 116 >>), Ref("_1") >>), Ref("_"), Ref("str"), Ref("_"), Lit(<< 44 >>), Ref("_"), Or(<< Ref("from2"), And(<< Ref("range"), Rep(And(<< And(<< Ref("_"), Lit(<< 44 >>) >>), Ref("_"), Ref("range") >>), 0, INF) >>) >>), Ref("_"), Lit(<< 41 >>) >>)
    @@ "_1" :> ShownClass(<< 32, 10, 9 >>, << >>, << 91, 93 >>)
    @@ "from2" :> And(<< Lit(<< 102, 114, 111, 109, 50 >>), Ref("_"), Lit(<< 118, 101, 99, 33 >>), Ref("_"), Lit(<< 91 >>), Ref("_"), Rep(And(<< Ref("pair"), Rep(And(<< And(<< Ref("_"), Lit(<< 44 >>) >>), Ref("_"), Ref("pair") >>), 0, INF) >>), 0, 1), Ref("_"), Lit(<< 93 >>) >>)
    @@ "pair" :> And(<< Lit(<< 40 >>), Ref("_"), Ref("chr"), Ref("_"), Lit(<< 44 >>), Ref("_"), Ref("chr"), Ref("_"), Lit(<< 41 >>) >>)
    @@ "range" :> And(<< Lit(<< 102, 114, 111, 109 >>), Ref("_"), Ref("chr"), Ref("_"), Lit(<< 44 >>), Ref("_"), Lit(<< 116, 111 >>), Ref("_"), Ref("chr") >>)
    @@ "and" :> And(<< Lit(<< 97, 110, 100, 33 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Rep(And(<< Ref("expr"), Rep(And(<< And(<< Ref("_"), Lit(<< 44 >>) >>), Ref("_"), Ref("expr") >>), 0, INF) >>), 0, 1), Ref("_"), Lit(<< 41 >>) >>)
    @@ "or" :> And(<< Lit(<< 111, 114, 33 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Rep(And(<< Ref("expr"), Rep(And(<< And(<< Ref("_"), Lit(<< 44 >>) >>), Ref("_"), Ref("expr") >>), 0, INF) >>), 0, 1), Ref("_"), Lit(<< 41 >>) >>)
    @@ "not" :> And(<< Lit(<< 110, 111, 116, 33 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Ref("expr"), Ref("_"), Lit(<< 41 >>) >>)
    @@ "rep" :> And(<< Lit(<< 114, 101, 112, 33 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Ref("expr"), Ref("_"), Lit(<< 44 >>), Ref("_"), Ref("count"), Ref("_"), Rep(And(<< Lit(<< 44 >>), Ref("_"), Ref("count") >>), 0, 1), Ref("_"), Lit(<< 41 >>) >>)
    @@ "ref" :> And(<< Lit(<< 114, 101, 102, 95, 114, 117, 108, 101, 33 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Ref("str"), Ref("_"), Lit(<< 41 >>) >>)
    @@ "count" :> Or(<< Ref("most"), And(<< Or(<< Ref("hex"), Ref("bin"), Ref("dec") >>), Rep(Lit(<< 117, 115, 105, 122, 101 >>), 0, 1) >>) >>)
    @@ "most" :> Or(<< Lit(<< 117, 115, 105, 122, 101, 58, 58, 77, 65, 88 >>), Lit(<< 115, 116, 100, 58, 58, 117, 115, 105, 122, 101, 58, 58, 77, 65, 88 >>), Lit(<< 117, 115, 105, 122, 101, 58, 58, 109, 97, 120, 95, 118, 97, 108, 117, 101, 40, 41 >>) >>)
    @@ "hex" :> And(<< Lit(<< 48, 120 >>), ShownClass(<< >>, << << 48, 57 >>, << 97, 102 >>, << 65, 70 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 44, 32, 40, 39, 97, 39, 44, 32, 39, 102, 39, 41, 44, 32, 40, 39, 65, 39, 44, 32, 39, 70, 39, 41, 93 >>), Rep(Or(<< ShownClass(<< >>, << << 48, 57 >>, << 97, 102 >>, << 65, 70 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 44, 32, 40, 39, 97, 39, 44, 32, 39, 102, 39, 41, 44, 32, 40, 39, 65, 39, 44, 32, 39, 70, 39, 41, 93 >>), Lit(<< 95 >>) >>), 0, INF) >>)
    @@ "bin" :> And(<< Lit(<< 48, 98 >>), ShownClass(<< 48, 49 >>, << >>, << 91, 93 >>), Rep(ShownClass(<< 48, 49, 95 >>, << >>, << 91, 93 >>), 0, INF) >>)
    @@ "dec" :> And(<< ShownClass(<< >>, << << 48, 57 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 93 >>), Rep(ShownClass(<< 95 >>, << << 48, 57 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 93 >>), 0, INF) >>)
    @@ "num" :> Rep(ShownClass(<< >>, << << 48, 57 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 93 >>), 1, INF)
    @@ "str" :> And(<< Or(<< Ref("raw1"), Ref("raw0"), Ref("esc"), Ref("from"), Ref("refd"), Ref("chr"), Ref("num") >>), Rep(Lit(<< 46, 116, 111, 95, 115, 116, 114, 105, 110, 103, 40, 41 >>), 0, 1) >>)
    @@ "from" :> And(<< Lit(<< 83, 116, 114, 105, 110, 103, 58, 58, 102, 114, 111, 109 >>), Ref("_"), Lit(<< 40 >>), Ref("_"), Ref("str"), Ref("_"), Lit(<< 41 >>) >>)
    @@ "refd" :> And(<< Lit(<< 38 >>), Ref("str") >>)
    @@ "raw1" :> And(<< Lit(<< 114, 35, 34 >>), Ref("body1"), Lit(<< 34, 35 >>) >>)
    @@ "body1" :> Rep(And(<< Not(Lit(<< 34, 35 >>)), Not(Lit(<< 13 >>)), Not(ShownClass(<< >>, << << 8234, 8238 >>, << 8294, 8297 >> >>, << 91, 40, 39, 8234, 39, 44, 32, 39, 8238, 39, 41, 44, 32, 40, 39, 8294, 39, 44, 32, 39, 8297, 39, 41, 93 >>)), Dot >>), 0, INF)
    @@ "raw0" :> And(<< Lit(<< 114, 34 >>), Ref("body0"), Lit(<< 34 >>) >>)
    @@ "body0" :> Rep(And(<< Not(Lit(<< 34 >>)), Not(Lit(<< 13 >>)), Not(ShownClass(<< >>, << << 8234, 8238 >>, << 8294, 8297 >> >>, << 91, 40, 39, 8234, 39, 44, 32, 39, 8238, 39, 41, 44, 32, 40, 39, 8294, 39, 44, 32, 39, 8297, 39, 41, 93 >>)), Dot >>), 0, INF)
    @@ "esc" :> And(<< Lit(<< 34 >>), Rep(Or(<< Ref("escape"), And(<< Not(ShownClass(<< 34, 92, 13 >>, << >>, << 91, 93 >>)), Not(ShownClass(<< >>, << << 8234, 8238 >>, << 8294, 8297 >> >>, << 91, 40, 39, 8234, 39, 44, 32, 39, 8238, 39, 41, 44, 32, 40, 39, 8294, 39, 44, 32, 39, 8297, 39, 41, 93 >>)), Dot >>) >>), 0, INF), Lit(<< 34 >>) >>)
    @@ "chr" :> And(<< Lit(<< 39 >>), Or(<< Ref("escape"), And(<< Not(ShownClass(<< 39, 92, 13, 10, 9 >>, << >>, << 91, 93 >>)), Not(ShownClass(<< >>, << << 8234, 8238 >>, << 8294, 8297 >> >>, << 91, 40, 39, 8234, 39, 44, 32, 39, 8238, 39, 41, 44, 32, 40, 39, 8294, 39, 44, 32, 39, 8297, 39, 41, 93 >>)), Dot >>) >>), Lit(<< 39 >>) >>)
    @@ "escape" :> And(<< Lit(<< 92 >>), Or(<< Ref("simple"), Ref("byte"), Ref("code") >>) >>)
    @@ "simple" :> ShownClass(<< 110, 114, 116, 48, 92, 39, 34 >>, << >>, << 91, 93 >>)
    @@ "byte" :> And(<< Lit(<< 120 >>), ShownClass(<< >>, << << 48, 55 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 55, 39, 41, 93 >>), ShownClass(<< >>, << << 48, 57 >>, << 97, 102 >>, << 65, 70 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 44, 32, 40, 39, 97, 39, 44, 32, 39, 102, 39, 41, 44, 32, 40, 39, 65, 39, 44, 32, 39, 70, 39, 41, 93 >>) >>)
    @@ "code" :> And(<< Lit(<< 117, 123 >>), Rep(ShownClass(<< >>, << << 48, 57 >>, << 97, 102 >>, << 65, 70 >> >>, << 91, 40, 39, 48, 39, 44, 32, 39, 57, 39, 41, 44, 32, 40, 39, 97, 39, 44, 32, 39, 102, 39, 41, 44, 32, 40, 39, 65, 39, 44, 32, 39, 70, 39, 41, 93 >>), 1, 6), Lit(<< 125 >>) >>)
    @@ "_" :> Rep(Or(<< ShownClass(<< 32, 10, 9 >>, << >>, << 91, 93 >>), Ref("line"), Ref("block") >>), 0, INF)
    @@ "line" :> And(<< Lit(<< 47, 47 >>), Rep(And(<< Not(ShownClass(<< 10, 13 >>, << >>, << 91, 93 >>)), Not(ShownClass(<< >>, << << 8234, 8238 >>, << 8294, 8297 >> >>, << 91, 40, 39, 8234, 39, 44, 32, 39, 8238, 39, 41, 44, 32, 40, 39, 8294, 39, 44, 32, 39, 8297, 39, 41, 93 >>)), Dot >>), 0, INF), Lit(<< 10 >>) >>)
    @@ "block" :> And(<< Lit(<< 47, 42 >>), Rep(Or(<< Ref("block"), And(<< Not(Lit(<< 42, 47 >>)), Not(Lit(<< 13 >>)), Not(ShownClass(<< >>, << << 8234, 8238 >>, << 8294, 8297 >> >>, << 91, 40, 39, 8234, 39, 44, 32, 39, 8238, 39, 41, 44, 32, 40, 39, 8294, 39, 44, 32, 39, 8297, 39, 41, 93 >>)), Dot >>) >>), 0, INF), Lit(<< 42, 47 >>) >>)
=============================================================================
