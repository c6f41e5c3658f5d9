------------------------------- MODULE MCAst -------------------------------
(* A tree going through a pipeline of transformations, exhaustively over small trees,
   and what holds of each.  t0 is the tree given, t what it is now, done the list of
   what was applied.                                                          *)
EXTENDS AstOps, Json

VARIABLES t0, t, flat, done
vars == << t0, t, flat, done >>
CONSTANTS Family, Steps, Emit, Kinds

(* ---- small trees ---- *)
X == << 120 >>  Y == << 121 >>
Leaves == {Val(X), Val(Y), EofNode}
Seqs(S, k) == UNION {[1..i -> S] : i \in 0..k}
Rules(S, k) == {Rule(n, cs) : n \in {"a", "b"}, cs \in Seqs(S, k)}
N1 == Leaves \cup Rules(Leaves, 2)                \* up to one level
Inner == {Rule("a", << Val(X) >>), Rule("b", << Val(Y), EofNode >>), Rule("a", << >>)}
N2 == Rules(Inner \cup {Val(X)}, 2)               \* two levels
FamQuick(u) == Leaves \cup {Rule("a", cs) : cs \in Seqs(N1, 2)} \cup {Rule("r", << nd >>) : nd \in N2}
            \cup {Rule("b", << Val(X), nd, Val(Y) >>) : nd \in N2 \cup N1}
Fam(u) == FamQuick(0) \cup {Rule("r", << x, y, z >>) : x \in N1, y \in N1, z \in Leaves \cup Inner}
       \cup {Rule("a", << x, y >>) : x \in N2, y \in N2 \cup Leaves} \cup {Rule("a", cs) : cs \in Seqs(Leaves \cup Inner, 5)}
NameSets == SUBSET {"a", "b", "r"}

(* ---- transitions ---- *)
\* by name, so that only the one used is built
Configs(w) ==
    CASE w = "Fam" -> Fam(0)
      [] w = "FamQuick" -> FamQuick(0)

Init == t0 \in Configs(Family) /\ t = t0 /\ flat = << >> /\ done = << >>
Can(k) == k \in Kinds /\ Len(done) < Steps /\ (IF done = << >> THEN TRUE ELSE Last(done).f # "flatten")
Note(f, N) == done' = Append(done, [f |-> f, names |-> N, from |-> t])
DoPrune(N)   == Can("prune") /\ t' = Prune(t, N) /\ Note("prune", N) /\ UNCHANGED << t0, flat >>
DoPass(N)    == Can("pass") /\ t' = PassThrough(t, N) /\ Note("pass", N) /\ UNCHANGED << t0, flat >>
DoCompact    == Can("compact") /\ t' = Compact(t) /\ Note("compact", {}) /\ UNCHANGED << t0, flat >>
DoFlatten    == Can("flatten") /\ flat' = Flatten(t) /\ Note("flatten", {}) /\ UNCHANGED << t0, t >>
Tell(r, f, N, from) == Emit => PrintT(<< "BEHAVIOUR", ToJson([f |-> f, names |-> N, tree |-> from, r |-> r]) >>)
Next == \/ \E N \in NameSets : (DoPrune(N) /\ Tell(t', "prune", N, t)) \/ (DoPass(N) /\ Tell(t', "pass", N, t))
        \/ DoCompact /\ Tell(t', "compact", {}, t)
        \/ DoFlatten /\ Tell(flat', "flatten", {}, t)
Spec == Init /\ [][Next]_vars

(* ---- what holds ---- *)
RECURSIVE NamesIn(_)
NamesIn(nd) == IF IsRule(nd) THEN {nd.n} \cup UNION {NamesIn(nd.c[i]) : i \in DOMAIN nd.c} ELSE {}
Below(nd) == IF IsRule(nd) THEN UNION {NamesIn(nd.c[i]) : i \in DOMAIN nd.c} ELSE {}
Leaf(tok) == tok.t \in {"v", "e"}
LeavesOf(nd) == SelectSeq(Tokens(nd), Leaf)
\* position of the end that closes the begin at i
RECURSIVE Close(_, _, _)
Close(ts, i, depth) == LET d == depth + (CASE ts[i].t = "b" -> 1 [] ts[i].t = "x" -> -1 [] OTHER -> 0) IN
                       IF d = 0 THEN i ELSE Close(ts, i + 1, d)
\* tokens without what is inside the begins of N; the first is the root's
RECURSIVE Cut(_, _, _)
Cut(ts, i, N) == IF i > Len(ts) THEN << >>
                 ELSE IF i > 1 /\ ts[i].t = "b" /\ ts[i].n \in N THEN Cut(ts, Close(ts, i, 0) + 1, N)
                 ELSE << ts[i] >> \o Cut(ts, i + 1, N)
Inside(ts) == SubSeq(ts, 2, Len(ts) - 1)
Ended(f) == done # << >> /\ Last(done).f = f
From == Last(done).from
NamesOf == Last(done).names

TreeUntouched == done # << >> => done[1].from = t0
\* C19
PruneCuts == Ended("prune") => /\ Tokens(t) = Cut(Tokens(From), 1, NamesOf)
                               /\ Below(t) \cap NamesOf = {}
                               /\ Prune(t, NamesOf) = t
PruneAdds == Len(done) >= 2 /\ done[Len(done)].f = "prune" /\ done[Len(done) - 1].f = "prune" =>
                t = Prune(done[Len(done) - 1].from, done[Len(done)].names \cup done[Len(done) - 1].names)
\* C20
PassSplices == Ended("pass") =>
    /\ LeavesOf(t) = LeavesOf(From)
    /\ IsRule(From) => Inside(Tokens(t)) = SelectSeq(Inside(Tokens(From)), LAMBDA x : Leaf(x) \/ x.n \in NamesOf)
    /\ IsRule(From) => t.n = From.n
    /\ PassThrough(t, NamesOf) = t
\* C21
RECURSIVE Adjacent(_)
Adjacent(nd) == IsRule(nd) /\ ((\E i \in 1..(Len(nd.c) - 1) : IsVal(nd.c[i]) /\ IsVal(nd.c[i + 1])) \/ \E i \in DOMAIN nd.c : Adjacent(nd.c[i]))
RECURSIVE Merge(_)      \* the tokens, runs of values merged one by one
Merge(ts) == IF Len(ts) < 2 THEN ts
             ELSE IF ts[1].t = "v" /\ ts[2].t = "v" THEN Merge(<< Val(ts[1].s \o ts[2].s) >> \o SubSeq(ts, 3, Len(ts)))
             ELSE << ts[1] >> \o Merge(Tail(ts))
CompactMerges == Ended("compact") => /\ Tokens(t) = Merge(Tokens(From)) /\ ~Adjacent(t) /\ Yield(t) = Yield(From)
                                     /\ SelectSeq(Tokens(t), LAMBDA x : x.t # "v") = SelectSeq(Tokens(From), LAMBDA x : x.t # "v")
                                     /\ Compact(t) = t
\* C22: reading the list back with a stack gives the tree without its ends of file
RECURSIVE NoEof(_), Build(_, _, _)
NoEof(nd) == IF IsRule(nd) THEN LET cs == SelectSeq(nd.c, LAMBDA x : x.t # "e") IN Rule(nd.n, [i \in 1..Len(cs) |-> NoEof(cs[i])]) ELSE nd
Build(ts, i, stk) ==      \* stk: rules open, each with its children so far
    IF i > Len(ts) THEN stk
    ELSE CASE ts[i].t = "v" -> Build(ts, i + 1, Front(stk) \o << [Last(stk) EXCEPT !.c = Append(@, ts[i])] >>)
           [] ts[i].t = "b" -> Build(ts, i + 1, Append(stk, Rule(ts[i].n, << >>)))
           [] ts[i].t = "x" -> LET nd == Last(stk)  up == Front(stk) IN
                               IF nd.n # ts[i].n \/ up = << >> THEN << >> ELSE Build(ts, i + 1, Front(up) \o << [Last(up) EXCEPT !.c = Append(@, nd)] >>)
FlattenWalks == Ended("flatten") =>
    LET top == Build(flat, 1, << Rule("top", << >>) >>) IN
    /\ Len(top) = 1
    /\ top[1].c = (IF From.t = "e" THEN << >> ELSE << NoEof(From) >>)
=============================================================================
