------------------------------ MODULE PegBase ------------------------------
(* Values shared by every module: expressions, rule sets, tree nodes, texts,
   positions, failures.

   A text is a sequence of code points.  A rule set is a function from names to
   expressions (names are any values: strings for grammars written in TLA+ or
   recorded from the code, sequences of code points for grammars read from
   text).                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- expressions ---- *)
INF == -1                                      \* no maximum
Lit(s)          == [k |-> "lit", s |-> s]
Dot             == [k |-> "dot"]
Eof             == [k |-> "eof"]
ErrX(s)         == [k |-> "err", s |-> s]
Class(c, r)     == [k |-> "match", c |-> c, r |-> r]      \* r: seq of <<from, to>>
And(es)         == [k |-> "and", es |-> es]
Or(es)          == [k |-> "or", es |-> es]
Not(e)          == [k |-> "not", e |-> e]
Rep(e, lo, hi)  == [k |-> "rep", e |-> e, lo |-> lo, hi |-> hi]
Ref(n)          == [k |-> "ref", n |-> n]

Terminals == {"lit", "dot", "eof", "err", "match"}

InClass(ch, e) ==
    \/ \E i \in 1..Len(e.c) : e.c[i] = ch
    \/ \E i \in 1..Len(e.r) : e.r[i][1] <= ch /\ ch <= e.r[i][2]

(* ---- tree nodes ---- *)
Val(s)      == [t |-> "v", s |-> s]
Rule(n, c)  == [t |-> "r", n |-> n, c |-> c]
EofNode     == [t |-> "e"]

RECURSIVE Yield(_), YieldOf(_, _, _)
\* the characters of the leaves, in order
Yield(nd) == CASE nd.t = "v" -> nd.s
               [] nd.t = "e" -> << >>
               [] nd.t = "r" -> YieldOf(nd.c, 1, Len(nd.c))
\* of ns[a] .. ns[b], halving so that long lists do not nest deep
YieldOf(ns, a, b) ==
    IF a > b THEN << >>
    ELSE IF a = b THEN Yield(ns[a])
    ELSE LET h == (a + b) \div 2 IN YieldOf(ns, a, h) \o YieldOf(ns, h + 1, b)

\* the nodes in document order, with the begin and the end of every rule: this is how
\* trees travel in logs (no limit to their depth) and, but for the ends of file, what
\* flattening a tree gives
BeginTok(n) == [t |-> "b", n |-> n]
EndTok(n)   == [t |-> "x", n |-> n]
RECURSIVE Tokens(_), TokensOf(_, _, _)
Tokens(nd) == CASE nd.t = "r" -> << BeginTok(nd.n) >> \o TokensOf(nd.c, 1, Len(nd.c)) \o << EndTok(nd.n) >>
                [] OTHER      -> << nd >>
TokensOf(ns, a, b) ==
    IF a > b THEN << >>
    ELSE IF a = b THEN Tokens(ns[a])
    ELSE LET h == (a + b) \div 2 IN TokensOf(ns, a, h) \o TokensOf(ns, h + 1, b)

(* ---- positions: everything is a function of the text and the number of
        characters before the position ---- *)
NL == 10
CR == 13
\* the largest i in 0..n with i = 0 or t[i] in the set
BackTo(t, n, set) ==
    LET S == {i \in 1..n : t[i] \in set} IN
    IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* the smallest i in n..Len(t) with i = Len(t) or t[i + 1] in the set
ForwardTo(t, n, set) ==
    LET S == {i \in n .. Len(t) - 1 : t[i + 1] \in set} IN
    IF S = {} THEN Len(t) ELSE CHOOSE x \in S : \A y \in S : x <= y

Row(t, n)        == Cardinality({i \in 1..n : t[i] = NL})
LineStart(t, n)  == BackTo(t, n, {NL})
Col(t, n)        == n - BackTo(t, n, {NL, CR})
LineBefore(t, n) == SubSeq(t, LineStart(t, n) + 1, n)
LineAfter(t, n)  == SubSeq(t, n + 1, ForwardTo(t, n, {NL, CR}))
PosAt(t, n)      == [n |-> n, row |-> Row(t, n), col |-> Col(t, n), sl |-> LineStart(t, n)]

(* ---- failures.  d is the kind of description, s its text or name; row,
        column, line start and the excerpts are determined by n. ---- *)
NONE == [d |-> "none"]
Failure(d, s, n, prio, walk) == [d |-> d, s |-> s, n |-> n, prio |-> prio, walk |-> walk]
Critical(f) == f.prio = "critical"

(* ---- matching a terminal at n: [ok, n], n being the new position, or where
        the failure is reported.  A character that does not fit was looked at, so
        it is before the failure. ---- *)
LitMatch(t, n, s) ==
    IF n + Len(s) <= Len(t) /\ SubSeq(t, n + 1, n + Len(s)) = s
    THEN [ok |-> TRUE, n |-> n + Len(s)]
    ELSE LET Bad(i) == n + i > Len(t) \/ t[n + i] # s[i]
             i == CHOOSE i \in 1..Len(s) : Bad(i) /\ \A j \in 1..(i - 1) : ~Bad(j) IN
         [ok |-> FALSE, n |-> IF n + i > Len(t) THEN Len(t) ELSE n + i]

AtomMatch(t, n, e) ==
    CASE e.k = "lit"   -> LitMatch(t, n, e.s)
      [] e.k = "dot"   -> IF n < Len(t) THEN [ok |-> TRUE, n |-> n + 1] ELSE [ok |-> FALSE, n |-> n]
      [] e.k = "match" -> IF n < Len(t) THEN [ok |-> InClass(t[n + 1], e), n |-> n + 1]
                                        ELSE [ok |-> FALSE, n |-> n]
      [] e.k = "eof"   -> IF n < Len(t) THEN [ok |-> FALSE, n |-> n + 1] ELSE [ok |-> TRUE, n |-> n]
      [] e.k = "err"   -> [ok |-> FALSE, n |-> n]

\* the node a matched terminal leaves, going from n to m
AtomNode(t, n, m, e) == IF e.k = "eof" THEN EofNode ELSE Val(SubSeq(t, n + 1, m))

\* the failure a terminal reports at n
AtomFailure(n, e, walk) ==
    CASE e.k = "lit"   -> Failure("lit", e.s, n, "normal", walk)
      [] e.k = "dot"   -> Failure("dot", << >>, n, "normal", walk)
      [] e.k = "match" -> Failure("match", e, n, "normal", walk)
      [] e.k = "eof"   -> Failure("eof", << >>, n, "normal", walk)
      [] e.k = "err"   -> Failure("user", e.s, n, "critical", walk)

\* of two failures of a choice, in the order they happened, the one kept
Deeper(f, g) == IF f.d = "none" THEN g
                ELSE IF f.prio = "critical" /\ g.prio = "normal" THEN f
                ELSE IF f.n > g.n THEN f ELSE g

(* ---- the status of a parse: characters consumed, the failure that ended the
        last repetition, the rules entered (debug only) ---- *)
Status0 == [n |-> 0, pot |-> NONE, walk |-> << >>]

\* what is reported when main matched only a prefix
Leftover(st) == IF st.pot.d # "none" THEN st.pot
                ELSE Failure("leftover", << >>, st.n, "normal", st.walk)

Last(s)  == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Range(s) == {s[i] : i \in DOMAIN s}
=============================================================================
