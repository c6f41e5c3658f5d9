------------------------------ MODULE PegText ------------------------------
(* Writing grammars: the texts that show an expression, a rule, a module, in every
   admitted layout; and what literals and scopes stand for, said without the
   grammar of grammars.  Used to check PegFront.                              *)
EXTENDS PegBase

(* ---- a text with holes: white space that may be there ("o"), must be there
        ("s"), or ends a rule or a module ("e") ---- *)
Tx(codes)  == << [k |-> "text", s |-> codes] >>
HoleO == << [k |-> "o"] >>
HoleS == << [k |-> "s"] >>
HoleE == << [k |-> "e"] >>

RECURSIVE JoinFrom(_, _, _)
JoinFrom(xs, i, sep) == IF i > Len(xs) THEN << >> ELSE (IF i = 1 THEN << >> ELSE sep) \o xs[i] \o JoinFrom(xs, i + 1, sep)
JoinAll(xs, sep) == LET all == TLCEval(xs) IN JoinFrom(all, 1, sep)

Quoted(s) == << 39 >> \o s \o << 39 >>
\* a literal may be written with double quotes, with q between them
LitText(x) == IF "q" \in DOMAIN x THEN << 34 >> \o x.q \o << 34 >> ELSE Quoted(x.s)
\* "error"
Error == << 101, 114, 114, 111, 114 >>
ClassText(x) ==
    LET R[i \in 0..Len(x.r)] == IF i = 0 THEN << >> ELSE R[i - 1] \o << x.r[i][1], 45, x.r[i][2] >> IN
    << 91 >> \o x.c \o R[Len(x.r)] \o << 93 >>

\* level 0: any expression, 1: a member of a choice, 2: a member of a sequence (but the
\* first of it when it is an error), 3: what takes a suffix or a prefix
RECURSIVE Show(_, _)
Wrap(x) == Tx(<< 40 >>) \o HoleO \o Show(x, 0) \o HoleO \o Tx(<< 41 >>)
Show(x, level) ==
    CASE x.k = "lit"   -> Tx(LitText(x))
      [] x.k = "match" -> Tx(ClassText(x))
      [] x.k = "dot"   -> Tx(<< 46 >>)
      [] x.k = "ref"   -> Tx(x.n)
      [] x.k = "err"   -> IF level > 2 THEN Wrap(x)
                          ELSE Tx(Error) \o HoleO \o Tx(<< 40 >>) \o HoleO \o Tx(LitText(x)) \o HoleO \o Tx(<< 41 >>)
      [] x.k = "or"    -> IF level > 0 THEN Wrap(x)
                          ELSE JoinAll([i \in DOMAIN x.es |-> Show(x.es[i], 1)], HoleO \o Tx(<< 47 >>) \o HoleO)
      [] x.k = "and"   -> IF level > 1 THEN Wrap(x)
                          ELSE JoinAll([i \in DOMAIN x.es |-> Show(x.es[i], IF i = 1 /\ x.es[i].k = "err" THEN 3 ELSE 2)], HoleS)
      [] x.k = "par"   -> Wrap(x.e)
      [] x.k = "not"   -> IF level > 2 THEN Wrap(x) ELSE Tx(<< 33 >>) \o Show(x.e, 3)
      [] x.k = "rep"   -> IF level > 2 THEN Wrap(x)
                          ELSE Show(x.e, 3) \o Tx(CASE x.lo = 0 /\ x.hi = INF -> << 42 >>
                                                    [] x.lo = 1 /\ x.hi = INF -> << 43 >>
                                                    [] x.lo = 0 /\ x.hi = 1   -> << 63 >>)

\* items: rules << "r", name, expression >> and modules << "m", name, items >>
RECURSIVE ShowItems(_)
ShowItem(it) ==
    IF it[1] = "r" THEN Tx(it[2]) \o HoleO \o Tx(<< 61 >>) \o HoleO \o Show(it[3], 0) \o HoleE
    ELSE Tx(it[2]) \o HoleO \o Tx(<< 123 >>) \o HoleO \o ShowItems(it[3]) \o HoleO \o Tx(<< 125 >>) \o HoleE
ShowItems(its) == JoinAll([i \in DOMAIN its |-> ShowItem(its[i])], << >>)
ShowGrammar(its) == HoleO \o ShowItems(its)

(* ---- filling the holes.  L(i, k): what goes in the i-th piece, a hole of kind k ---- *)
RECURSIVE Glue(_, _, _)
Glue(xs, a, b) ==
    IF a > b THEN << >> ELSE IF a = b THEN xs[a]
    ELSE LET h == (a + b) \div 2 IN Glue(xs, a, h) \o Glue(xs, h + 1, b)
Fill(ps, L(_, _)) == Glue([i \in 1..Len(ps) |-> IF ps[i].k = "text" THEN ps[i].s ELSE L(i, ps[i].k)], 1, Len(ps))
Plain(i, k) == CASE k = "o" -> << 32 >> [] k = "s" -> << 32 >> [] k = "e" -> << 10 >>
Tight(i, k) == CASE k = "o" -> << >> [] k = "s" -> << 32 >> [] k = "e" -> << 10 >>

(* ---- what a double quoted literal stands for, reading it from left to right ---- *)
IsHex(ch) == (48 <= ch /\ ch <= 57) \/ (65 <= ch /\ ch <= 70)
Hex(ch)   == IF ch <= 57 THEN ch - 48 ELSE ch - 55
RECURSIVE Unescape(_)
Unescape(s) ==
    IF s = << >> THEN << >>
    ELSE IF s[1] # 92 \/ Len(s) = 1 THEN << s[1] >> \o Unescape(Tail(s))
    ELSE CASE s[2] = 110 -> << 10 >> \o Unescape(SubSeq(s, 3, Len(s)))
           [] s[2] = 114 -> << 13 >> \o Unescape(SubSeq(s, 3, Len(s)))
           [] s[2] = 116 -> << 9 >> \o Unescape(SubSeq(s, 3, Len(s)))
           [] s[2] \in {92, 34} -> << s[2] >> \o Unescape(SubSeq(s, 3, Len(s)))
           [] s[2] = 48 /\ Len(s) >= 5 /\ s[3] = 120 /\ IsHex(s[4]) /\ IsHex(s[5]) ->
                << 16 * Hex(s[4]) + Hex(s[5]) >> \o Unescape(SubSeq(s, 6, Len(s)))
           [] OTHER -> << s[1] >> \o Unescape(Tail(s))

(* ---- what a list of items defines: the last rule of a name at this level, or
        else the first module that defines it ---- *)
RECURSIVE Defines(_), Scope(_)
Defines(its) == UNION {IF its[i][1] = "r" THEN {its[i][2]} ELSE Defines(its[i][3]) : i \in DOMAIN its}
Scope(its) ==
    [nm \in Defines(its) |->
        LET Rules == {i \in DOMAIN its : its[i][1] = "r" /\ its[i][2] = nm}
            Mods  == {i \in DOMAIN its : its[i][1] = "m" /\ nm \in Defines(its[i][3])} IN
        IF Rules # {} THEN its[CHOOSE i \in Rules : \A j \in Rules : j <= i][3]
        ELSE Scope(its[CHOOSE i \in Mods : \A j \in Mods : i <= j][3])[nm]]
=============================================================================
