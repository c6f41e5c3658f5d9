------------------------------ MODULE RustText ------------------------------
(* Generated Rust code: what the tree of such a text stands for (what it builds when it
   is compiled), and how rules are written.                                   *)
EXTENDS RustGrammar

Kids(nd, S) == SelectSeq(nd.c, LAMBDA x : x.t = "r" /\ x.n \in S)
Kid(nd, S)  == Kids(nd, S)[1]
Has(nd, S)  == Kids(nd, S) # << >>
Inner(s, a, b) == SubSeq(s, 1 + a, Len(s) - b)

(* ---- reading ---- *)
Digit(ch) == CASE ch <= 57 -> ch - 48 [] ch <= 70 -> ch - 55 [] OTHER -> ch - 87
RECURSIVE Number(_, _)
Number(s, base) == IF s = << >> THEN 0 ELSE base * Number(Front(s), base) + Digit(Last(s))
EscapeOf(nd) ==
    LET s == Yield(nd) IN
    CASE Has(nd, {"byte"}) -> << Number(SubSeq(s, 3, 4), 16) >>
      [] Has(nd, {"code"}) -> << Number(Inner(s, 3, 1), 16) >>
      [] OTHER -> << CASE s[2] = 110 -> 10 [] s[2] = 114 -> 13 [] s[2] = 116 -> 9 [] s[2] = 48 -> 0 [] OTHER -> s[2] >>
PieceOf(nd) == IF nd.t = "v" THEN nd.s ELSE EscapeOf(nd)
RECURSIVE PiecesOf(_, _, _)
PiecesOf(ns, a, b) ==
    IF a > b THEN << >> ELSE IF a = b THEN PieceOf(ns[a])
    ELSE LET h == (a + b) \div 2 IN PiecesOf(ns, a, h) \o PiecesOf(ns, h + 1, b)
QuotedOf(nd) == PiecesOf(nd.c, 2, Len(nd.c) - 1)          \* "..." or '.'
ChrOf(nd) == QuotedOf(nd)[1]
RECURSIVE StrOf(_)
StrOf(nd) ==
    LET x == nd.c[1] IN
    CASE x.n = "raw1" -> Inner(Yield(x), 3, 2)
      [] x.n = "raw0" -> Inner(Yield(x), 2, 1)
      [] x.n \in {"esc", "chr"} -> QuotedOf(x)
      [] x.n = "num"  -> Yield(x)
      [] x.n \in {"from", "refd"} -> StrOf(Kid(x, {"str"}))      \* an owned string, a reference
(* counts: those beyond what is counted here stand for themselves, by numbers of their own *)
FirstHuge == 2147483640
HugeIn10 == << << 2, 1, 4, 7, 4, 8, 3, 6, 4, 8 >>,
               << 4, 2, 9, 4, 9, 6, 7, 2, 9, 5 >>,
               << 4, 2, 9, 4, 9, 6, 7, 2, 9, 6 >>,
               << 9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 2 >>,
               << 9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7 >>,
               << 9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8 >>,
               << 1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 4 >>,
               << 1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5 >> >>
HugeIn16 == << << 8, 0, 0, 0, 0, 0, 0, 0 >>,
               << 15, 15, 15, 15, 15, 15, 15, 15 >>,
               << 1, 0, 0, 0, 0, 0, 0, 0, 0 >>,
               << 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>,
               << 7, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15 >>,
               << 8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>,
               << 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 14 >>,
               << 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15 >> >>
RECURSIVE Unpadded(_)
Unpadded(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Unpadded(Tail(ds)) ELSE ds
Counted(s, base) ==
    LET ds == Unpadded([i \in 1..Len(s) |-> Digit(s[i])])
        huge == IF base = 16 THEN HugeIn16 ELSE HugeIn10
        h == {k \in 1..8 : base > 2 /\ huge[k] = ds} IN
    IF h # {} THEN FirstHuge + (CHOOSE k \in h : TRUE) - 1 ELSE Number(s, base)
CountOf(nd) ==
    LET x == nd.c[1]
        s == SelectSeq(Yield(x), LAMBDA ch : ch # 95) IN
    CASE x.n = "most" -> FirstHuge + 7
      [] x.n = "hex"  -> Counted(Inner(s, 2, 0), 16)
      [] x.n = "bin"  -> Counted(Inner(s, 2, 0), 2)
      [] x.n = "dec"  -> Counted(s, 10)

RECURSIVE BuiltExpr(_)
BuiltExpr(nd) ==
    LET x == nd.c[1] IN
    CASE x.n = "lit"   -> Lit(StrOf(Kid(x, {"str"})))
      [] x.n = "error" -> ErrX(StrOf(Kid(x, {"str"})))
      [] x.n = "dot"   -> Dot
      [] x.n = "ref"   -> Ref(StrOf(Kid(x, {"str"})))
      [] x.n = "paren" -> BuiltExpr(Kid(x, {"expr"}))
      [] x.n = "not"   -> Not(BuiltExpr(Kid(x, {"expr"})))
      [] x.n = "rep"   -> LET ns == Kids(x, {"count"}) IN
                          Rep(BuiltExpr(Kid(x, {"expr"})), CountOf(ns[1]), IF Len(ns) = 1 THEN INF ELSE CountOf(ns[2]))
      [] x.n = "ematch" -> LET rs == IF Has(x, {"from2"}) THEN Kids(Kid(x, {"from2"}), {"pair"}) ELSE Kids(x, {"range"}) IN
                           Class(StrOf(Kid(x, {"str"})), [i \in 1..Len(rs) |-> LET cs == Kids(rs[i], {"chr"}) IN << ChrOf(cs[1]), ChrOf(cs[2]) >>])
      [] x.n \in {"and", "or"} ->
            LET es == Kids(x, {"expr"})
                bs == [i \in 1..Len(es) |-> BuiltExpr(es[i])] IN
            IF x.n = "and" THEN And(bs) ELSE Or(bs)
\* the definitions, in order: << name, expression >>
Definitions(ast) == LET rs == Kids(ast, {"rule"}) IN
                    [i \in 1..Len(rs) |-> << StrOf(Kid(rs[i], {"str"})), BuiltExpr(Kid(rs[i], {"expr"})) >>]

(* ---- writing, as the documentation shows it.  bc: whether characters that are not
        plain ASCII are written by their code ---- *)
RECURSIVE HexOf(_), DecOf(_), Flat(_), Sep(_), WriteExpr(_, _)
HexOf(n) == LET D(d) == IF d < 10 THEN 48 + d ELSE 87 + d IN IF n < 16 THEN << D(n) >> ELSE HexOf(n \div 16) \o << D(n % 16) >>
DecOf(n) == IF n < 10 THEN << 48 + n >> ELSE DecOf(n \div 10) \o << 48 + (n % 10) >>
Shown(ch, quote, bc) ==
    CASE ch = 10 -> << 92, 110 >>
      [] ch = 13 -> << 92, 114 >>
      [] ch = 9  -> << 92, 116 >>
      [] ch = 0  -> << 92, 48 >>
      [] ch = 92 \/ ch = quote -> << 92, ch >>
      [] ch < 32 \/ (bc /\ ch > 126) -> << 92, 117, 123 >> \o HexOf(ch) \o << 125 >>
      [] OTHER -> << ch >>
Flat(xs) == IF xs = << >> THEN << >> ELSE Head(xs) \o Flat(Tail(xs))
Sep(xs) == IF xs = << >> THEN << >> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o << 44, 32 >> \o Sep(Tail(xs))
WStr(s, bc)  == << 34 >> \o Flat([i \in DOMAIN s |-> Shown(s[i], 34, bc)]) \o << 34 >>
WChr(ch, bc) == << 39 >> \o Shown(ch, 39, bc) \o << 39 >>
WRaw(s)      == << 114, 35, 34 >> \o s \o << 34, 35 >>
Macro(nm, s) == nm \o << 33, 40 >> \o s \o << 41 >>
M_lit == << 108, 105, 116 >>   \* lit
M_error == << 101, 114, 114, 111, 114 >>   \* error
M_dot == << 100, 111, 116 >>   \* dot
M_ematch == << 101, 109, 97, 116, 99, 104 >>   \* ematch
M_and == << 97, 110, 100 >>   \* and
M_or == << 111, 114 >>   \* or
M_not == << 110, 111, 116 >>   \* not
M_rep == << 114, 101, 112 >>   \* rep
M_ref_rule == << 114, 101, 102, 95, 114, 117, 108, 101 >>   \* ref_rule
ChList == << 99, 104, 108, 105, 115, 116, 32 >>   \* chlist
From2  == << 102, 114, 111, 109, 50, 32, 118, 101, 99, 33, 91, 93 >>   \* from2 vec![]
From   == << 102, 114, 111, 109, 32 >>   \* from
To     == << 116, 111, 32 >>   \* to
WriteExpr(x, bc) ==
    CASE x.k = "lit"   -> Macro(M_lit, WStr(x.s, bc))
      [] x.k = "err"   -> Macro(M_error, WStr(x.s, bc))
      [] x.k = "dot"   -> Macro(M_dot, << >>)
      [] x.k = "ref"   -> Macro(M_ref_rule, WRaw(x.n))
      [] x.k = "not"   -> Macro(M_not, WriteExpr(x.e, bc))
      [] x.k = "and"   -> Macro(M_and, Sep([i \in DOMAIN x.es |-> WriteExpr(x.es[i], bc)]))
      [] x.k = "or"    -> Macro(M_or, Sep([i \in DOMAIN x.es |-> WriteExpr(x.es[i], bc)]))
      [] x.k = "rep"   -> Macro(M_rep, Sep(<< WriteExpr(x.e, bc), DecOf(x.lo) >> \o (IF x.hi = INF THEN << >> ELSE << DecOf(x.hi) >>)))
      [] x.k = "match" -> Macro(M_ematch, Sep(<< ChList \o WStr(x.c, bc) >>
                             \o (IF x.r = << >> THEN << From2 >>
                                 ELSE Flat([i \in DOMAIN x.r |-> << From \o WChr(x.r[i][1], bc), To \o WChr(x.r[i][2], bc) >>]))))
\* definitions in some order
Write(ds, bc) == Sep([i \in DOMAIN ds |-> << 10 >> \o WRaw(ds[i][1]) \o << 32, 61, 62, 32 >> \o WriteExpr(ds[i][2], bc)])
=============================================================================
