------------------------------- MODULE AstOps -------------------------------
(* What can be done with a tree, and the walks over lists of nodes.  Nodes are those
   of PegBase; flat nodes are its tokens (values, begins and ends of rules; an end of
   file may be in a list although flattening never puts it there).            *)
EXTENDS PegBase

IsRule(nd) == nd.t = "r"
IsVal(nd)  == nd.t = "v"

RECURSIVE CatOf(_, _, _)
CatOf(xs, a, b) == IF a > b THEN << >> ELSE IF a = b THEN xs[a]
                   ELSE LET h == (a + b) \div 2 IN CatOf(xs, a, h) \o CatOf(xs, h + 1, b)
Cat(xs) == CatOf(xs, 1, Len(xs))
Each(xs, Op(_)) == [i \in 1..Len(xs) |-> Op(xs[i])]

(* ---- C19: rule nodes below the root named in N go, with all that is under them ---- *)
RECURSIVE Prune(_, _)
Prune(nd, N) ==
    IF ~IsRule(nd) THEN nd
    ELSE LET kept == SelectSeq(nd.c, LAMBDA x : ~(IsRule(x) /\ x.n \in N)) IN
         Rule(nd.n, [i \in 1..Len(kept) |-> Prune(kept[i], N)])

(* ---- C20: rule nodes below the root not named in N give place to their children ---- *)
RECURSIVE PassThrough(_, _), Passed(_, _)
Passed(nd, N) ==    \* what a node below the root becomes
    IF IsRule(nd) /\ nd.n \notin N THEN Cat([i \in 1..Len(nd.c) |-> Passed(nd.c[i], N)])
    ELSE << PassThrough(nd, N) >>
PassThrough(nd, N) ==
    IF ~IsRule(nd) THEN nd ELSE Rule(nd.n, Cat([i \in 1..Len(nd.c) |-> Passed(nd.c[i], N)]))

(* ---- C21: every maximal run of values becomes one ---- *)
RECURSIVE Compact(_)
Compact(nd) ==
    IF ~IsRule(nd) THEN nd
    ELSE LET cs == nd.c
             n  == Len(cs)
             Starts == {i \in 1..n : ~IsVal(cs[i]) \/ i = 1 \/ ~IsVal(cs[i - 1])}
             RunEnd(i) == CHOOSE j \in i..n : (j = n \/ j + 1 \in Starts) /\ \A k \in i..(j - 1) : k + 1 \notin Starts
             At(i) == IF IsVal(cs[i]) THEN Val(Cat([k \in 1..(RunEnd(i) - i + 1) |-> cs[i + k - 1].s])) ELSE Compact(cs[i]) IN
         Rule(nd.n, Cat([i \in 1..n |-> IF i \in Starts THEN << At(i) >> ELSE << >>]))

(* ---- C22 ---- *)
Flatten(nd) == SelectSeq(Tokens(nd), LAMBDA x : x.t # "e")

(* ---- walks.  Each answers [ok, got, rest]; what is left when it fails is the list
        itself, and got is << >> when nothing is given.  got: a sequence of code points,
        a list of nodes, a name, or << name, nodes >>. ---- *)
No(ws)           == [ok |-> FALSE, got |-> << >>, rest |-> ws]
Yes(got, rest)   == [ok |-> TRUE, got |-> got, rest |-> rest]
FirstIs(ws, P(_)) == ws # << >> /\ P(ws[1])
\* a: the value or the name asked for
TreeWalk(op, a, ws) ==
    CASE op = "consume_val"        -> IF FirstIs(ws, IsVal) THEN Yes(ws[1].s, Tail(ws)) ELSE No(ws)
      [] op = "consume_this_value" -> IF FirstIs(ws, LAMBDA x : IsVal(x) /\ x.s = a) THEN Yes(<< >>, Tail(ws)) ELSE No(ws)
      [] op = "consume_rule"       -> IF FirstIs(ws, LAMBDA x : IsRule(x) /\ x.n = a) THEN Yes(ws[1].c, Tail(ws)) ELSE No(ws)
      [] op = "split_first"        -> IF ws # << >> THEN Yes(<< ws[1] >>, Tail(ws)) ELSE No(ws)
      [] op = "peek"               -> IF ws # << >> THEN Yes(<< ws[1] >>, ws) ELSE No(ws)
      [] op = "check_empty"        -> IF ws = << >> THEN Yes(<< >>, ws) ELSE No(ws)
      [] op = "unique_val"         -> IF Len(ws) = 1 /\ IsVal(ws[1]) THEN Yes(ws[1].s, ws) ELSE No(ws)
      [] op = "node_val"           -> IF FirstIs(ws, IsVal) THEN Yes(ws[1].s, ws) ELSE No(ws)
      [] op = "node_name"          -> IF FirstIs(ws, IsRule) THEN Yes(<< ws[1].n, ws[1].c >>, ws) ELSE No(ws)
TreeOps == {"consume_val", "consume_this_value", "consume_rule", "split_first", "peek", "check_empty", "unique_val", "node_val", "node_name"}

FlatWalk(op, a, ws) ==
    CASE op = "consume_val"        -> IF FirstIs(ws, IsVal) THEN Yes(ws[1].s, Tail(ws)) ELSE No(ws)
      [] op = "consume_this_value" -> IF FirstIs(ws, LAMBDA x : IsVal(x) /\ x.s = a) THEN Yes(<< >>, Tail(ws)) ELSE No(ws)
      [] op = "begin"              -> IF FirstIs(ws, LAMBDA x : x.t = "b" /\ x.n = a) THEN Yes(<< >>, Tail(ws)) ELSE No(ws)
      [] op = "end"                -> IF FirstIs(ws, LAMBDA x : x.t = "x" /\ x.n = a) THEN Yes(<< >>, Tail(ws)) ELSE No(ws)
      [] op = "split_first"        -> IF ws # << >> THEN Yes(<< ws[1] >>, Tail(ws)) ELSE No(ws)
      [] op = "peek"               -> IF ws # << >> THEN Yes(<< ws[1] >>, ws) ELSE No(ws)
      [] op = "node_val"           -> IF FirstIs(ws, IsVal) THEN Yes(ws[1].s, ws) ELSE No(ws)
      [] op = "node_name"          -> IF FirstIs(ws, LAMBDA x : x.t \in {"b", "x"}) THEN Yes(ws[1].n, ws) ELSE No(ws)
FlatOps == {"consume_val", "consume_this_value", "begin", "end", "split_first", "peek", "node_val", "node_name"}

\* what an operation asks for: a name, a value or nothing
Asks(op) == CASE op \in {"consume_rule", "begin", "end"} -> "name" [] op = "consume_this_value" -> "value" [] OTHER -> "nothing"
\* those that take the first node away when they succeed
Consuming == {"consume_val", "consume_this_value", "consume_rule", "split_first", "begin", "end"}
=============================================================================
