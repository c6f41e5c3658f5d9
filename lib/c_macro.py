"""C25: rules written with the macros.

     1. TLC checks over families of small programs that what the compiler makes of them is the rules
     written, the set growing by one rule after another (spec/MCMacro.tla), and prints the programs.
     2. Those and random ones, written in many ways, are compiled with the crate and run, and TLC
     reads each program and compares the rule set it made (spec/TraceMacro.tla)."""
import random

import compile
import core
import dictionary
import genmacro
import mc
from c_parse import JUDGED

PROPS = ["C25"]
#  programs the model writes and random ones, compiled
CASES = {"quick": (600, 800), "thorough": (6000, 6000)}


def check(run):
    core.build_harness()
    behaviours = mc.check(run, "MCMacro", "C25", timeout=3000)
    nb, n = CASES[run.tier]
    rng = random.Random("%s/C25" % run.seed)
    texts = sorted({"".join(map(chr, b["code"])) for b in behaviours})
    cases = [{"id": "b-%d" % i, "code": t} for i, t in enumerate(rng.sample(texts, min(nb, len(texts))))]
    cases += genmacro.cases("C25/%s" % run.seed, n, dictionary.mine(core.REPO), 1200)
    run.sample(cases[-1])
    for i in range(0, len(cases), 850):
        part = cases[i:i + 850]
        built = compile.build_all([c["code"] for c in part], "%s/generated" % run.work)
        part, built = zip(*[(c, b) for c, b in zip(part, built) if b])
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, [{"id": c["id"], "code": [ord(x) for x in c["code"]], "ok": b["ok"], "names": b.get("names", []), "built": b.get("built", [])}
                          for c, b in zip(part, built)])
        r = core.tlc("TraceMacro", env={"TRACE": p}, timeout=1500, xmx="12g")
        got = {x[1]: x[5] for x in JUDGED.findall(r.text)}
        if not r.clean or len(got) != len(part):
            raise core.ToolError("TLC judged %d of %d programs:\n%s" % (len(got), len(part), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        for c, b in zip(part, built):
            w = got[c["id"]]
            if "UNDECIDED" in w:
                raise core.ToolError("the specification does not read %r" % c["code"])
            if w != "{}":
                run.violation("rules!(%s): not the rules written (%s): %s" % (c["code"][:600], w, b.get("why", str(b.get("built")))[:1200]), dict(c, answer=b))
        run.traces += len(part)
        run.log("programs", i + len(part))
    run.detail["programs"] = {"written_by_the_model": min(nb, len(texts)), "of": len(texts), "random": n, "characters": sum(len(c["code"]) for c in cases)}
