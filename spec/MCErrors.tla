------------------------------ MODULE MCErrors ------------------------------
(* Errors of the grammar reader and what is put on them, every history up to a length. *)
EXTENDS ErrorChain, Json, TLC

CONSTANTS Steps, Emit, Family
VARIABLES c, did, shows
vars == << c, did, shows >>

\* "a", "", "b > c", ")", "AST("
Texts(w) == IF w = "few" THEN {<< 97 >>, << >>, WThen} ELSE {<< 97 >>, << >>, << 98 >> \o WThen \o << 99 >>, WClose, WAst, << 98, 10, 34 >>}
\* debug forms stand for what they are the forms of: any text will do
Bases(w) == {[k |-> "peg", d |-> d] : d \in Texts(w)}
       \cup {[k |-> "parser", e |-> d, dbg |-> << 80 >> \o d] : d \in Texts(w)}
       \cup {[k |-> "ast", d |-> d, c |-> x, dbg |-> << 65 >> \o d] : d \in Texts(w), x \in {<< >>, << << 97 >> >>}}
Init == /\ \E b \in Bases(Family) : c = Begun(b)
        /\ did = << >> /\ shows = << Shown(c) >>
\* with the method, or with the constructor
Push(how, d) == /\ Len(did) < Steps
                /\ c' = Pushed(c, d)
                /\ did' = Append(did, [a |-> how, d |-> d])
                /\ shows' = Append(shows, Shown(c'))
Next == \E how \in {"push", "wrap"}, d \in Texts(Family) : Push(how, d)
Spec == Init /\ [][Next]_vars
Tell == IF Len(did) = Steps /\ Emit THEN PrintT(<< "BEHAVIOUR", ToJson([base |-> c.base, steps |-> did, shows |-> shows]) >>) ELSE TRUE

(* ---- what holds ---- *)
\* everything said is there, the last said first
AllThere == /\ Len(c.over) = Len(did)
            /\ \A n \in DOMAIN did : c.over[Len(did) + 1 - n] = did[n].d
\* what is printed is as long as its parts and ends with the base
Ends(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
RECURSIVE Total(_)
Total(over) == IF over = << >> THEN 0 ELSE Len(over[1]) + 3 + Total(Tail(over))
NothingLost == /\ Len(Shown(c)) = Total(c.over) + Len(ShownBase(c.base))
               /\ Ends(Shown(c), ShownBase(c.base))
\* what was printed before ends what is printed now; nothing under is touched
Extends == [][/\ c'.base = c.base /\ Tail(c'.over) = c.over
              /\ Shown(c') = Last(did').d \o WThen \o Shown(c)]_vars
Told == Tell
=============================================================================
