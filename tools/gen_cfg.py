#!/usr/bin/env python3
"""writes spec/cfg/*.cfg"""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "cfg")


FAMILY = 'Family = "%s"'


def cfg(name, spec="Spec", consts=(), invs=(), props=(), extra=()):
    with open(os.path.join(D, name + ".cfg"), "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        for c in consts:
            f.write("CONSTANT %s\n" % c)
        if invs:
            f.write("INVARIANTS %s\n" % " ".join(invs))
        if props:
            f.write("PROPERTIES %s\n" % " ".join(props))
        for x in extra:
            f.write(x + "\n")
        f.write("CHECK_DEADLOCK FALSE\n")


INV = {"C01": "TypeOK Recognises NeverGivesBack NeverStuck", "C02": "TypeOK Derivation", "C03": "TypeOK WidthOne SameMeaning",
       "C04": "TypeOK Located", "C05": "TypeOK Selected FurthestOfAlternatives", "C06": "TypeOK AbortIsSaid NoAbortLost",
       "C07": "TypeOK NoLoopOpen StackBounded IdleOnlyIfNeeded NeverStuck SameMeaning", "C08": "TypeOK WithinBounds SameMeaning",
       "C09": "TypeOK DebugOnlyAddsPath"}
FAM = {"C01": ("FamOne FamIdle", "FamTwo FamRep FamIdleMore"), "C02": ("FamOne", "FamTwo FamRep"), "C03": ("FamUni", "FamUniMore"),
       "C04": ("FamPos", "FamPosMore"), "C05": ("FamTwoQuick FamIdle", "FamTwo FamIdleMore"), "C06": ("FamAbort", "FamAbortMore"),
       "C07": ("FamRec", "FamRecMore FamRep"), "C08": ("FamRepQuick", "FamRep"), "C09": ("FamDebug", "FamAbortMore FamTwo")}
PROP = {"C06": "StaysAborted"}


def main():
    for p, inv in INV.items():
        for tier, fams in zip(("quick", "thorough"), FAM[p]):
            for i, fam in enumerate(fams.split()):
                cfg("MCParse.%s.%s%s" % (p, tier, i or ""), consts=[FAMILY % fam, "Emit = TRUE"], invs=inv.split(),
                    props=PROP.get(p, "").split())
    for tier, fam in (("quick", "FamRecQuick"), ("thorough", "FamRec")):
        cfg("MCParse.C07.%s_ends" % tier, spec="FairSpec", consts=[FAMILY % fam, "Emit = FALSE"], props=["Ends"])


main()

FRONT = {"C12": ("FamStructQuick", "FamStruct"), "C13": ("FamLitQuick", "FamLit"), "C14": ("FamLayoutQuick", "FamLayout"),
         "C15": ("FamDamagedQuick", "FamDamaged"), "C16": ("FamModNames", "FamModNamesMore")}
for p, fams in FRONT.items():
    for tier, fam in zip(("quick", "thorough"), fams):
        cfg("MCFront.%s.%s" % (p, tier), consts=[FAMILY % fam, "Emit = TRUE"],
            invs=["TypeOK", "ReadsBack" if p != "C15" else "SaysWhere Critically"], extra=["VIEW View"])

AST = {"C19": ("prune", "PruneCuts PruneAdds"), "C20": ("pass", "PassSplices"), "C21": ("compact", "CompactMerges"), "C22": ("flatten", "FlattenWalks")}
ALLK = '{"prune", "pass", "compact", "flatten"}'
for p, (k, inv) in AST.items():
    for tier, fam in (("quick", "FamQuick"), ("thorough", "Fam")):
        #  the function alone, every result printed; and in pipelines with the others
        cfg("MCAst.%s.%s" % (p, tier), consts=[FAMILY % fam, "Emit = TRUE", "Steps = 1", 'Kinds = {"%s"}' % k], invs=["TreeUntouched"] + inv.split())
        kinds = '{"prune"}' if p == "C19" and tier == "quick" else ALLK
        cfg("MCAst.%s.%s_pipe" % (p, tier), consts=[FAMILY % "FamQuick", "Emit = FALSE", "Steps = 2", "Kinds = " + kinds], invs=["TreeUntouched"] + inv.split())

WALK = "KeepsAll OneAtMost SucceedsExactly GivesContent SameWalk".split()
for p, flat, fams in (("C23", "FALSE", (("Tree2", "Few4"), ("Tree3", "Few4"))), ("C24", "TRUE", (("Flat3", "FewFlat4"), ("Flat3", "FewFlat4")))):
    for tier, (one, many) in zip(("quick", "thorough"), fams):
        #  every single step, printed; walks; and the end of them
        cfg("MCWalk.%s.%s" % (p, tier), consts=[FAMILY % one, "Emit = TRUE", "Steps = 1", "Flat = " + flat], invs=WALK)
        cfg("MCWalk.%s.%s_walks" % (p, tier), consts=[FAMILY % many, "Emit = FALSE", "Steps = %d" % (3 if tier == "quick" else 5), "Flat = " + flat], invs=WALK)
        cfg("MCWalk.%s.%s_ends" % (p, tier), spec="FairSpec", consts=[FAMILY % many, "Emit = FALSE", "Steps = 5", "Flat = " + flat], invs=WALK, props=["Finishes"])

SETS = dict(invs=["HoldsWhatWasPut", "MergeIsAdding", "Printed"], props=["OnlyThat", "OthersKeep"])
for tier, confs in (("quick", (("small", "{1, 2}", 4, "TRUE"), ("more", "{1, 2}", 3, "TRUE"))),
                    ("thorough", (("small", "{1, 2, 3}", 5, "FALSE"), ("small", "{1, 2}", 5, "TRUE"), ("more", "{1, 2}", 4, "TRUE")))):
    for j, (fam, regs, steps, emit) in enumerate(confs):
        cfg("MCSets.C10.%s%s" % (tier, j or ""), consts=[FAMILY % fam, "Registers = " + regs, "Steps = %d" % steps, "Emit = " + emit], **SETS)

for tier, jobs, each in (("quick", "few", 2), ("thorough", "few", 2), ("thorough_all", "all", 1)):
    cfg("MCPure.C11.%s" % tier, consts=['Jobs = "%s"' % jobs, "Each = %d" % each], invs=["SameForAll", "Unrelated"], props=["BothEnd"])

GEN = dict(invs=["Compiles", "SameRules", "EachOnce", "AllThere"], extra=["VIEW View"])
for tier, fams in (("quick", ("chars", "structs")), ("thorough", ("chars", "structs", "more"))):
    for j, fam in enumerate(fams):
        cfg("MCGen.C17.%s%s" % (tier, j or ""), consts=[FAMILY % fam, "Emit = TRUE", "Rounds = %d" % (1 if tier == "quick" else 2)], **GEN)

SELF = dict(invs=["ReadsItself", "SameAgain", "Installed"], extra=["VIEW View"])
for tier, whole, rounds in (("quick", "TRUE", 1), ("thorough", "FALSE", 0), ("thorough1", "TRUE", 3)):
    cfg("MCSelf.C18.%s" % tier, consts=["Rounds = %d" % rounds, "Whole = " + whole], props=["GoesOn"] if rounds == 3 else [], **SELF)

for tier, fams in (("quick", ("names", "lists", "nests", "atoms")), ("thorough", ("names3", "lists", "nests", "atoms", "more"))):
    for j, fam in enumerate(fams):
        cfg("MCMacro.C25.%s%s" % (tier, j or ""), consts=[FAMILY % fam, "Emit = TRUE"], invs=["Compiles", "AsWritten", "InOrder", "NothingElse"], props=["Ends"] if fam[:5] == "names" else [])

for tier, fam, steps in (("quick", "few", 3), ("thorough", "few", 4), ("thorough_more", "more", 3)):
    cfg("MCErrors.C26.%s" % tier, consts=[FAMILY % fam, "Steps = %d" % steps, "Emit = TRUE"], invs=["AllThere", "NothingLost", "Told"], props=["Extends"])
