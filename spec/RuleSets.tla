------------------------------ MODULE RuleSets ------------------------------
(* What rule sets hold.  A rule set is a function from names to expressions. *)
EXTENDS PegBase

NoRules == << >>
\* of a list of << name, expression >>, the last of a name counts
Created(ps)    == LET names == {ps[i][1] : i \in DOMAIN ps}
                      Last1(n) == CHOOSE i \in DOMAIN ps : ps[i][1] = n /\ \A j \in (i + 1)..Len(ps) : ps[j][1] # n IN
                  [n \in names |-> ps[Last1(n)][2]]
Added(s, n, e) == [x \in DOMAIN s \cup {n} |-> IF x = n THEN e ELSE s[x]]
Merged(s, o)   == [x \in DOMAIN s \cup DOMAIN o |-> IF x \in DOMAIN s THEN s[x] ELSE o[x]]
=============================================================================
