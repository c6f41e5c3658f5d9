----------------------------- MODULE TraceGen -----------------------------
(* Code generated for rules read from grammar texts.  A case: id, rules (the rules read,
   a list of << name, expression >>), code (code points), compiled, and if it is:
   ok (the compiler takes it), names (as the macro is given them, in order) and built
   (the rules it builds).  What is not compiled is read by the specification; a reading
   that fails or differs decides nothing, as there are many ways of writing Rust. *)
EXTENDS RustText, PegSem, Json, IOUtils

VARIABLES i, done
Cases == ndJsonDeserialize(IOEnv.TRACE)
C == Cases[i]

Once(xs) == \A a, b \in DOMAIN xs : xs[a] = xs[b] => a = b
\* the same bindings; a rule set has each name once
Same(ps, qs) ==
    /\ Len(ps) = Len(qs)
    /\ \A a \in DOMAIN ps : \E b \in DOMAIN qs : ps[a] = qs[b]
    /\ \A b \in DOMAIN qs : \E a \in DOMAIN ps : ps[a] = qs[b]
NamesOf(ps) == [a \in DOMAIN ps |-> ps[a][1]]
Compiled == (IF C.ok THEN {} ELSE {"compiles"})
         \cup (IF C.ok /\ ~Same(C.built, C.rules) THEN {"same"} ELSE {})
         \cup (IF C.ok /\ ~(Once(C.names) /\ Len(C.names) = Len(C.rules) /\ Range(C.names) = Range(NamesOf(C.rules))) THEN {"once"} ELSE {})
Reading == LET o == Meaning(RustGrammar, C.code) IN
           IF ~o.ok THEN {"reading"}
           ELSE LET ds == Definitions(o.ast) IN IF Once(NamesOf(ds)) /\ Same(ds, C.rules) THEN {} ELSE {"reading"}

Init == i \in 1..Len(Cases) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ i' = i
         /\ PrintT(<< "JUDGED", C.id, Len(C.rules), IF C.compiled THEN "compiled" ELSE "read", {}, IF C.compiled THEN Compiled ELSE Reading >>)
TraceSpec == Init /\ [][Judge]_<< i, done >>
=============================================================================
