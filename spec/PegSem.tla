------------------------------- MODULE PegSem -------------------------------
(* What a parse means, without saying how it is done: the semantics of parsing
   expression grammars (Ford 2004), extended with what a tree and an error are.
   Nothing is threaded through or restored: an expression at a position has one
   meaning, given in terms of the meanings of its parts.

     [r |-> "m", n, ns, stop, path]   it matches up to n, leaving nodes ns; stop is the
                                      failure that ended its last repetition (or NONE),
                                      path the rules it is made of, in order
     [r |-> "f", f]                   it does not match
     [r |-> "a", f]                   it aborts the parse
   The walk of f is relative to the start of the expression.                  *)
EXTENDS PegBase

Matched(n, nodes, stop, path) == [r |-> "m", n |-> n, ns |-> nodes, stop |-> stop, path |-> path]
NoMatch(fl) == [r |-> "f", f |-> fl]
Aborted(fl) == [r |-> "a", f |-> fl]
After(path, x) == IF x.r = "m" THEN x ELSE [x EXCEPT !.f.walk = path \o @]
\* failures remembered by a match that comes after a path
StopAfter(path, stop) == IF stop.d = "none" THEN stop ELSE [stop EXCEPT !.walk = path \o @]

\* a after which b comes
Join(a, b) == Matched(b.n, a.ns \o b.ns,
                      IF b.stop.d = "none" THEN a.stop ELSE StopAfter(a.path, b.stop),
                      a.path \o b.path)

Nothing(n) == Matched(n, << >>, NONE, << >>)

RECURSIVE Sem(_, _, _, _, _), SemSeq(_, _, _, _, _), SemChoice(_, _, _, _, _), Attempts(_, _, _, _, _, _, _)

\* rs rules, t text, x expression at n; act: rules begun at n and not ended
Sem(rs, t, x, n, act) ==
    CASE x.k \in Terminals ->
           LET a == AtomMatch(t, n, x) IN
           IF a.ok THEN Matched(a.n, << AtomNode(t, n, a.n, x) >>, NONE, << >>)
           ELSE LET fl == AtomFailure(a.n, x, << >>) IN IF Critical(fl) THEN Aborted(fl) ELSE NoMatch(fl)
      [] x.k = "ref" ->
           IF x.n \notin DOMAIN rs THEN Aborted(Failure("missing", x.n, n, "critical", << x.n >>))
           ELSE IF x.n \in act THEN Aborted(Failure("leftrec", x.n, n, "critical", << x.n >>))
           ELSE LET b == Sem(rs, t, rs[x.n], n, act \cup {x.n}) IN
                IF b.r = "m" THEN Matched(b.n, << Rule(x.n, b.ns) >>, StopAfter(<< x.n >>, b.stop), << x.n >> \o b.path)
                ELSE After(<< x.n >>, b)
      [] x.k = "and" -> SemSeq(rs, t, x.es, n, act)
      [] x.k = "or" ->
           IF x.es = << >> THEN NoMatch(Failure("nochoice", << >>, n, "normal", << >>))
           ELSE SemChoice(rs, t, x.es, n, act)
      [] x.k = "not" ->
           IF Sem(rs, t, x.e, n, act).r = "m" THEN NoMatch(Failure("not", << >>, n, "normal", << >>)) ELSE Nothing(n)
      [] x.k = "rep" ->
           LET as   == Attempts(rs, t, x, n, act, 0, << >>)
               \* occurrences that count: they match, and are needed or consume something
               Start(i) == IF i = 1 THEN n ELSE as[i - 1].n
               Counts(i) == /\ as[i].r = "m"
                            /\ x.hi = INF => i <= x.lo \/ as[i].n > Start(i)
               good == Cardinality({i \in 1..Len(as) : Counts(i)})
               acc[i \in 0..good] == IF i = 0 THEN Nothing(n) ELSE Join(acc[i - 1], as[i])
               over == good < Len(as) /\ as[good + 1].r # "m" IN
           IF over /\ (good < x.lo \/ as[good + 1].r = "a") THEN After(acc[good].path, as[good + 1])
           ELSE IF over THEN [acc[good] EXCEPT !.stop = StopAfter(acc[good].path, as[good + 1].f)]
           ELSE acc[good]

SemSeq(rs, t, es, n, act) ==
    IF es = << >> THEN Nothing(n)
    ELSE LET a == Sem(rs, t, Head(es), n, act) IN
         IF a.r # "m" THEN a
         ELSE LET b == SemSeq(rs, t, Tail(es), a.n, IF a.n = n THEN act ELSE {}) IN
              IF b.r = "m" THEN Join(a, b) ELSE After(a.path, b)

\* the first that does not fail; or else the failure that got furthest, the last of those
SemChoice(rs, t, es, n, act) ==
    LET a == Sem(rs, t, Head(es), n, act) IN
    IF a.r # "f" \/ Len(es) = 1 THEN a
    ELSE LET b == SemChoice(rs, t, Tail(es), n, act) IN
         IF b.r # "f" \/ b.f.n >= a.f.n THEN b ELSE a

\* the attempts of a repetition, one after the other, up to the one that ends it
Attempts(rs, t, x, n, act, i, sofar) ==
    IF i = x.hi THEN sofar
    ELSE LET a == Sem(rs, t, x.e, n, act) IN
         IF a.r # "m" \/ (x.hi = INF /\ i >= x.lo /\ a.n = n) THEN Append(sofar, a)
         ELSE Attempts(rs, t, x, a.n, IF a.n = n THEN act ELSE {}, i + 1, Append(sofar, a))

\* the parse of the whole text
Meaning(rs, t) ==
    LET a == Sem(rs, t, Ref("main"), 0, {}) IN
    IF a.r # "m" THEN [ok |-> FALSE, f |-> a.f]
    ELSE IF a.n = Len(t) THEN [ok |-> TRUE, ast |-> a.ns[1]]
    ELSE [ok |-> FALSE, f |-> IF a.stop.d # "none" THEN a.stop
                              ELSE Failure("leftover", << >>, a.n, "normal", a.path)]
=============================================================================
