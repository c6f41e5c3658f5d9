------------------------------- MODULE MCWalk -------------------------------
(* Walking a list of nodes with the helpers, exhaustively over short lists.  all is the
   list walked (the children of the rule gone into, once gone into one), ws what is left
   of it, past what was taken from it, last the last step.                     *)
EXTENDS AstOps, Json

VARIABLES all, ws, past, last, steps
vars == << all, ws, past, last, steps >>
CONSTANTS Family, Steps, Emit, Flat

X == << 120 >>  Y == << 120, 121 >>  None == << >>
Seqs(S, k) == UNION {[1..i -> S] : i \in 0..k}
TreeNodes(u) == {Val(X), Val(Y), Val(None), EofNode} \cup {Rule(n, c) : n \in {"x", "xy", ""}, c \in {<< >>, << Val(X) >>, << Val(Y), Rule("x", << >>) >>}}
FlatNodes(u) == {Val(X), Val(Y), Val(None), EofNode} \cup {BeginTok(n) : n \in {"x", "xy", ""}} \cup {EndTok(n) : n \in {"x", "xy", ""}}
Few(u) == {Val(X), Val(None), EofNode} \cup {Rule(n, c) : n \in {"x", ""}, c \in {<< >>, << Val(X), Rule("x", << >>) >>}}
FewFlat(u) == {Val(X), Val(None), EofNode, BeginTok("x"), EndTok("x"), EndTok("")}
Configs(w) ==
    CASE w = "Tree2" -> Seqs(TreeNodes(0), 2)
      [] w = "Tree3" -> Seqs(TreeNodes(0), 3)
      [] w = "Few4"  -> Seqs(Few(0), 4)
      [] w = "Flat2" -> Seqs(FlatNodes(0), 2)
      [] w = "Flat3" -> Seqs(FlatNodes(0), 3)
      [] w = "FewFlat4" -> Seqs(FewFlat(0), 4)
Asked(op) == CASE Asks(op) = "name" -> {"x", "xy", ""} [] Asks(op) = "value" -> {X, Y, None, << 121 >>} [] OTHER -> {None}
Walk(op, a, l) == IF Flat THEN FlatWalk(op, a, l) ELSE TreeWalk(op, a, l)
Ops == IF Flat THEN FlatOps ELSE TreeOps

Nothing == [op |-> "none", a |-> None, r |-> No(<< >>), enter |-> FALSE, from |-> << >>]
Init == all \in Configs(Family) /\ ws = all /\ past = << >> /\ last = Nothing /\ steps = 0
Do(op, a, enter) ==
    LET r == Walk(op, a, ws) IN
    /\ steps < Steps
    /\ enter => ~Flat /\ op = "consume_rule" /\ r.ok
    /\ last' = [op |-> op, a |-> a, r |-> r, enter |-> enter, from |-> ws]
    /\ ws'   = (IF enter THEN r.got ELSE r.rest)
    /\ all'  = (IF enter THEN r.got ELSE all)
    /\ past' = (IF enter THEN << >> ELSE past \o SubSeq(ws, 1, Len(ws) - Len(r.rest)))
    /\ steps' = steps + 1
    /\ Emit => PrintT(<< "BEHAVIOUR", ToJson([nodes |-> ws, op |-> op, a |-> a, ok |-> r.ok, got |-> r.got, rest |-> r.rest]) >>)
Next == \E op \in Ops : \E a \in Asked(op) : \E enter \in BOOLEAN : Do(op, a, enter)
Spec == Init /\ [][Next]_vars
\* a walk that goes on taking reaches the end
Taking == \E op \in Ops \cap Consuming : \E a \in Asked(op) : Do(op, a, FALSE) /\ ws' # ws
FairSpec == Init /\ [][Taking]_vars /\ WF_vars(Taking)
Finishes == <>(ws = << >> \/ steps = Steps)

(* ---- what holds ---- *)
Did == last.op # "none"
R == last.r
\* nothing lost, nothing twice
KeepsAll == past \o ws = all
\* exactly one node or none
OneAtMost == Did => R.rest = (IF R.ok /\ last.op \in Consuming THEN Tail(last.from) ELSE last.from)
\* the list walked is a list of the kind asked for
Expected(nd) ==
    CASE last.op \in {"consume_val", "node_val"} -> nd.t = "v"
      [] last.op = "consume_this_value" -> nd = Val(last.a)
      [] last.op = "consume_rule"       -> nd.t = "r" /\ nd.n = last.a
      [] last.op = "node_name"          -> nd.t \in (IF Flat THEN {"b", "x"} ELSE {"r"})
      [] last.op = "begin"              -> nd = BeginTok(last.a)
      [] last.op = "end"                -> nd = EndTok(last.a)
      [] OTHER                          -> TRUE
SucceedsExactly ==
    Did => R.ok = CASE last.op = "check_empty" -> last.from = << >>
                    [] last.op = "unique_val"  -> \E s \in {nd.s : nd \in {x \in Range(last.from) : x.t = "v"}} : last.from = << Val(s) >>
                    [] OTHER                   -> last.from # << >> /\ Expected(last.from[1])
\* what is given, put back with what is left, is what there was
GivesContent ==
    Did /\ R.ok =>
        CASE last.op \in {"consume_val"}        -> << Val(R.got) >> \o R.rest = last.from
          [] last.op \in {"node_val"}           -> R.got = last.from[1].s
          [] last.op = "unique_val"             -> << Val(R.got) >> = last.from
          [] last.op = "consume_this_value"     -> << Val(last.a) >> \o R.rest = last.from
          [] last.op = "consume_rule"           -> << Rule(last.a, R.got) >> \o R.rest = last.from
          [] last.op = "split_first"            -> R.got \o R.rest = last.from
          [] last.op = "peek"                   -> R.got = SubSeq(last.from, 1, 1)
          [] last.op = "node_name"              -> IF Flat THEN last.from[1] \in {BeginTok(R.got), EndTok(R.got)} ELSE Rule(R.got[1], R.got[2]) = last.from[1]
          [] last.op = "begin"                  -> << BeginTok(last.a) >> \o R.rest = last.from
          [] last.op = "end"                    -> << EndTok(last.a) >> \o R.rest = last.from
          [] OTHER                              -> R.rest = last.from
\* going down a tree with consume_rule is going along its flat list with begin and end
RECURSIVE FlatAll(_)
FlatAll(l) == Cat([i \in 1..Len(l) |-> Tokens(l[i])])
SameWalk ==
    Did /\ ~Flat /\ last.op = "consume_rule" /\ R.ok =>
        LET b == FlatWalk("begin", last.a, FlatAll(last.from))
            inside == FlatAll(R.got) IN
        /\ b.ok /\ SubSeq(b.rest, 1, Len(inside)) = inside
        /\ LET e == FlatWalk("end", last.a, SubSeq(b.rest, Len(inside) + 1, Len(b.rest))) IN e.ok /\ e.rest = FlatAll(R.rest)
=============================================================================
