----------------------------- MODULE TraceMacro -----------------------------
(* Rules written with the macros, compiled and run.  A case: id, code (code points), ok
   (the compiler takes it), names (as written, in order) and built (the rules of
   the rule set it makes).                                                    *)
EXTENDS RustText, PegSem, RuleSets, Json, IOUtils

VARIABLES i, done
Cases == ndJsonDeserialize(IOEnv.TRACE)
C == Cases[i]

Holds(ps, s) == Len(ps) = Cardinality(DOMAIN s) /\ \A x \in DOMAIN ps : ps[x][1] \in DOMAIN s /\ ps[x][2] = s[ps[x][1]] /\ \A y \in DOMAIN ps : ps[x][1] = ps[y][1] => x = y
Wrong == LET o == Meaning(RustGrammar, C.code) IN
         IF ~o.ok THEN {"UNDECIDED"}
         ELSE LET ds == Definitions(o.ast) IN
              IF ~C.ok THEN {"compiles"}
              ELSE IF C.names # [k \in DOMAIN ds |-> ds[k][1]] THEN {"UNDECIDED"}
              ELSE IF Holds(C.built, Created(ds)) THEN {} ELSE {"built"}

Init == i \in 1..Len(Cases) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ i' = i
         /\ PrintT(<< "JUDGED", C.id, Len(C.built), "macros", {}, Wrong >>)
TraceSpec == Init /\ [][Judge]_<< i, done >>
=============================================================================
