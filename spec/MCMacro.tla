------------------------------ MODULE MCMacro ------------------------------
(* Rules written with the macros of the crate: what the compiler makes of the text, and
   the rule set growing by one rule after another.                              *)
EXTENDS RustText, PegSem, RuleSets, Json

VARIABLES ds, bc, left, set, phase
vars == << ds, bc, left, set, phase >>
CONSTANTS Family, Emit

MAIN == << 109, 97, 105, 110 >>
LA == Lit(<< 97 >>)
LB == Lit(<< 98 >>)
Strings(S, k) == UNION {[1..n -> S] : n \in 0..k}
At == {LA, Lit(<< >>), Dot, Ref(<< 98 >>), ErrX(<< 34 >>), Class(<< 92 >>, << << 39, 92 >> >>)}
Chars == {97, 65, 34, 92, 39, 10, 13, 0, 8232, 128512}
Bounds == {0, 1, 2, 3, 7}
Reps(X) == {Rep(x, lo, hi) : x \in X, lo \in Bounds, hi \in Bounds \cup {INF}}
Ranges == {<< 97, 122 >>, << 122, 97 >>, << 97, 97 >>, << 39, 92 >>, << 0, 128512 >>}
Exprs(w) ==
    CASE w = "atoms" -> {Lit(s) : s \in Strings(Chars, 2)} \cup {ErrX(s) : s \in Strings(Chars, 1)} \cup {Ref(s) : s \in Strings({97, 65, 46, 95, 39}, 3)}
                        \cup {Class(s, r) : s \in Strings({97, 98, 45}, 2), r \in Strings(Ranges, 2)}
      [] w = "lists" -> {And(es) : es \in Strings(At, 3)} \cup {Or(es) : es \in Strings(At, 3)}
      [] w = "nests" -> LET one == Reps({LA, Dot}) \cup {Not(x) : x \in At} \cup {And(es) : es \in Strings({LA, Dot}, 2)} \cup {Or(es) : es \in Strings({LA, Dot}, 2)} IN
                        one \cup {Not(x) : x \in one} \cup {And(<< x >>) : x \in one} \cup {Or(<< x >>) : x \in one} \cup {And(<< x, LA >>) : x \in one}
                        \cup {Or(<< LA, x >>) : x \in one} \cup {Rep(x, 0, INF) : x \in one} \cup {Rep(x, 1, 1) : x \in one} \cup {Rep(x, 0, 1) : x \in one}
      [] w = "more"  -> {And(es) : es \in Strings(At \cup {And(<< LA >>), Or(<< >>), Not(Dot), Rep(LA, 0, 1)}, 4) \ Strings(At, 3)}
Programs ==
    IF Family \in {"names", "names3"} THEN {[j \in DOMAIN p |-> << p[j][1], p[j][2] >>] : p \in Strings((IF Family = "names" THEN {MAIN, << 97 >>} ELSE {MAIN, << 97 >>, << 65 >>}) \X {LA, LB, Not(Ref(<< 97 >>))}, 3)}
    ELSE {<< << MAIN, x >> >> : x \in Exprs(Family)}

Init == ds \in Programs /\ bc \in BOOLEAN /\ left = << >> /\ set = NoRules /\ phase = "written"
Text == Write(ds, bc)
Compile ==
    /\ phase = "written"
    /\ LET t == Text  o == Meaning(RustGrammar, t) IN
       IF o.ok THEN /\ left' = Definitions(o.ast) /\ phase' = "running"
                    /\ Emit => PrintT(<< "BEHAVIOUR", ToJson([code |-> t]) >>)
       ELSE left' = << >> /\ phase' = "refused"
    /\ UNCHANGED << ds, bc, set >>
Add ==
    /\ phase = "running" /\ left # << >>
    /\ set' = Added(set, left[1][1], left[1][2]) /\ left' = Tail(left)
    /\ UNCHANGED << ds, bc, phase >>
Next == Compile \/ Add
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what holds ---- *)
Compiles   == phase # "refused"
AsWritten  == phase = "running" => set = Created(SubSeq(ds, 1, Len(ds) - Len(left)))
InOrder    == phase = "running" => left = SubSeq(ds, Len(ds) - Len(left) + 1, Len(ds))
NothingElse == phase = "running" => \A n \in DOMAIN set : \E j \in DOMAIN ds : ds[j] = << n, set[n] >>
Ends       == <>(phase = "running" /\ left = << >>)
=============================================================================
