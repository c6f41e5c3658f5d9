"""C17 and C18: generated code, and the grammar of grammars installed over itself.

C17. 1. TLC checks over families of small rule sets that the code written for them (spec/RustText.tla)
     compiles, builds the same rules, each once, round after round (spec/MCGen.tla), and prints
     a grammar text for each.
     2. Those texts and random ones are read by the code and code is generated for their rules.
     A good part is compiled with the crate and run, and TLC compares what it builds with what it
     was generated for; the rest is read by the specification, and what that does not settle is
     compiled too (spec/TraceGen.tla).
     3. Code is generated for grammars with thousands of parts (spec/TracePump.tla).

C18. 1. TLC checks that the documented grammar of grammars reads its documented text as itself, and
     goes on doing so when what it read is written as Rust, compiled and installed (spec/MCSelf.tla).
     2. The program that prints the rules is run; what it prints is compiled, and installed in a copy
     of the crate.  The crate as it is and the crate it makes read the same texts and print again,
     and TLC checks that they give the same (spec/TraceSelf.tla)."""
import json
import os
import random
import re
import shutil

import c_front
import compile
import core
import dictionary
import genfront
import mc
import meta
import peg
import pump
import selftext
from c_parse import JUDGED

PROPS = ["C17", "C18"]
#  random texts, how many of them compiled, at most how many more when the specification cannot read them
CASES = {"quick": (2500, 250, 300), "thorough": (20000, 2500, 3000)}


def texts_of(run):
    """the grammar texts, random ones"""
    n = CASES[run.tier][0]
    dic = dictionary.mine(core.REPO)
    out = []
    for k, (part, ln) in enumerate(((0.85, 200), (0.15, 500))):
        for c in genfront.front_cases("C17", "%s.%d" % (run.seed, k), int(n * part), dic, maxlen=ln):
            out.append(dict(c, id="%d:%s" % (k, c["id"])))
    return out


def judge(run, rows):
    got = {}
    for i in range(0, len(rows), 3000):
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, rows[i:i + 3000])
        r = core.tlc("TraceGen", env={"TRACE": p}, timeout=1500, xmx="12g")
        j = JUDGED.findall(r.text)
        if not r.clean or len(j) != len(rows[i:i + 3000]):
            raise core.ToolError("TLC judged %d of %d cases:\n%s" % (len(j), len(rows), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        got.update({x[1]: x[5] for x in j})
    return got


def row(c, built=None):
    r = {"id": c["id"], "rules": c["rules"], "code": [ord(x) for x in c["code"]] if built is None else [], "compiled": built is not None}
    if built is not None:
        r.update({"ok": built["ok"], "names": built.get("names", []), "built": built.get("built", [])})
    return r


def compiled(run, cases, label):
    built = compile.build_all([c["code"] for c in cases], "%s/generated" % run.work)
    cases, built = zip(*[(c, b) for c, b in zip(cases, built) if b])
    verdict = judge(run, [row(c, b) for c, b in zip(cases, built)])
    for c, b in zip(cases, built):
        if verdict[c["id"]] != "{}":
            run.violation("generated code for %r: not the same rules (%s): %s\n%s" % (
                "".join(map(chr, c["text"]))[:300], verdict[c["id"]], b.get("why", ""), c["code"][:600]), dict(c, built=b))
    run.traces += len(cases)
    run.detail[label] = {"compiled": len(cases), "rules": sum(len(c["rules"]) for c in cases)}
    run.log(label, len(cases))


def check(run):
    (check17 if run.prop == "C17" else check18)(run)


def check17(run):
    exe = core.build_harness()
    behaviours = mc.check(run, "MCGen", "C17", timeout=3000)
    n, ncomp, more = CASES[run.tier]
    cases = [{"id": "b-%d" % i, "text": b["text"]} for i, b in enumerate(behaviours)] + texts_of(run)
    ans = core.run_harness(exe, [{"op": "gcode", "text": c["text"]} for c in cases], run.work, "cases", shards=8)
    live, refused = [], 0
    for c, a in zip(cases, ans):
        if a.get("bad") == "skipped":
            continue
        if "bad" in a:
            run.violation("generating code for %r: %s" % ("".join(map(chr, c["text"]))[:300], a["bad"]), dict(c, answer=a))
        elif a["k"] == "refused":
            refused += 1
        else:
            live.append(dict(c, rules=a["rules"], code=a["code"]))
    rng = random.Random("%s/C17/compile" % run.seed)
    first = [c for c in live if c["id"].startswith("b-")]
    rest = [c for c in live if not c["id"].startswith("b-")]
    if len(live) < len(cases) // 4:
        raise core.ToolError("only %d of %d texts are grammars" % (len(live), len(cases)))
    nb = run.pick(150, 100000)
    chosen = rng.sample(first, min(nb, len(first))) + rng.sample(rest, min(ncomp, len(rest)))
    run.sample({"text": "".join(map(chr, chosen[-1]["text"])), "code": chosen[-1]["code"]})
    compiled(run, chosen, "compiled")
    ids = {c["id"] for c in chosen}
    others = [c for c in live if c["id"] not in ids and len(c["code"]) <= 2500]
    verdict = judge(run, [row(c) for c in others])
    unsettled = [c for c in others if verdict[c["id"]] != "{}"]
    run.traces += len(others) - len(unsettled)
    run.detail["read_by_the_specification"] = {"same": len(others) - len(unsettled), "compiled_instead": len(unsettled), "texts_refused": refused}
    run.log("read", len(others), "unsettled", len(unsettled))
    if unsettled:
        compiled(run, rng.sample(unsettled, min(more, len(unsettled))), "compiled_after_reading")
    pump.code(run, exe)


# ------------------------------------------------------------------ C18
READ = {"quick": (4000, 1000), "thorough": (40000, 8000)}
RULES_RS = """use crate::parser;
pub(crate) fn parse_peg() -> parser::expression::SetOfRules {
  rules!(
%s
  )
}
"""


def copy_of(repo, where):
    shutil.rmtree(where, ignore_errors=True)
    shutil.copytree(repo, where, ignore=shutil.ignore_patterns(".git", "target", "doc_images"))
    return where


def printed(tree, target):
    """what the program of a tree prints; None when it cannot be built or fails"""
    env = dict(core.cargo_env(), CARGO_TARGET_DIR=target)
    r = core.sh(["cargo", "build", "--offline", "--quiet", "--bins"], cwd=tree, env=env, timeout=600)
    if r.returncode != 0:
        return None, "build", r.stdout[-2000:]
    out = core.sh(["sh", "-c", "ulimit -v 6000000; exec timeout 60 %s/debug/dynparser" % target], timeout=120)
    return (out.stdout if out.returncode == 0 else None), "run", out.stdout[-1500:]


def body_replaced(src, code):
    """src with what its first rules!(...) is given replaced"""
    a = src.find("rules!(")
    if a < 0:
        return None
    i, depth = a + len("rules!("), 1
    tok = re.compile(r'r(#*)".*?"\1|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\[^u]|\\u\{[^}]*\})\'|//[^\n]*|[()]|.', re.S)
    while depth:
        m = tok.match(src, i)
        if not m:
            return None
        depth += {"(": 1, ")": -1}.get(m.group(0), 0)
        i = m.end()
    return src[:a] + "rules!(\n" + code + "\n" + src[i - 1:]


def install(run, code):
    """a harness and what is printed, with the code in the place of the rules of grammars"""
    was = open(os.path.join(core.REPO, "src/peg/rules.rs"), encoding="utf-8").read()
    for n, text in enumerate((RULES_RS % code, body_replaced(was, code))):
        if text is None:
            continue
        tree = copy_of(core.REPO, "%s/installed" % run.work)
        with open(os.path.join(tree, "src/peg/rules.rs"), "w", encoding="utf-8", newline="") as f:
            f.write(text)
        src = core.harness_on(tree, "%s/harness-installed" % run.work)
        target = "%s/target-installed" % run.work
        r = core.sh(["cargo", "build", "--offline", "--quiet"], cwd=src, env=dict(core.cargo_env(), CARGO_TARGET_DIR=target), timeout=600)
        if r.returncode == 0:
            return os.path.join(target, "debug", "harness"), printed(tree, target)
    return None, None


def sampled(run, sets, n):
    """texts that sets of rules of grammars like, and nearly"""
    rng = random.Random("%s/C18/sampled" % run.seed)
    al = peg.cp("ab =\n'")
    out = []
    for _ in range(n):
        rules = rng.choice(sets)
        t = peg.Sampler(rng, rules, al, rng.choice([10, 30, 60, 100]), rng.choice([1, 2, 3])).run()[:160]
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            i = rng.randint(0, len(t))
            x = rng.random()
            if x < .4:
                t = t[:i] + [rng.choice(peg.cp(" \n\r/*'\"()[]{}=.-!?+\\a0"))] + t[i:]
            elif x < .8:
                t = t[:i] + t[i + 1:]
            else:
                t = t[:i]
        e = peg.Estimate(meta.META, t, 25000)
        e.run()
        if not e.gave_up:
            out.append({"id": "s-%d" % len(out), "text": t})
    return out


def judge_self(run, rows, what):
    n = 0
    for i in range(0, len(rows), 4000):
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, rows[i:i + 4000])
        r = core.tlc("TraceSelf", env={"TRACE": p}, timeout=1500, xmx="12g")
        j = JUDGED.findall(r.text)
        if not r.clean or len(j) != len(rows[i:i + 4000]):
            raise core.ToolError("TLC judged %d of %d cases:\n%s" % (len(j), len(rows), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        by = {c["id"]: c for c in rows[i:i + 4000]}
        for x in j:
            n += 1
            if x[5] != "{}":
                c = by[x[1]]
                run.violation("%s %r: not the same (%s): %s" % (what, "".join(map(chr, c.get("text", []))), x[5], json.dumps(c["events"])[:1500]), c)
    run.traces += n


def check18(run):
    exe = core.build_harness()
    run.assumptions += ["lib/self.peg is the documented text of the grammar of grammars"]
    mc.check(run, "MCSelf", "C18", timeout=3000)
    code, when, why = printed(copy_of(core.REPO, "%s/as-is" % run.work), "%s/target-as-is" % run.work)
    if code is None and when == "build":
        raise core.ToolError("the crate does not build:\n" + why)
    if code is None:
        run.violation("the program that prints the rules fails: " + why, {"printed": why})
        return
    one = compile.build_all([code], "%s/generated" % run.work)[0]
    if not one["ok"]:
        run.violation("what is printed does not compile: %s" % one["why"], {"printed": code})
        return
    mine = {n if isinstance(n, str) else "".join(map(chr, n)): e for n, e in one["built"]}
    other, again = install(run, code)
    how = "installed"
    if other is None:
        #  the sources are laid out otherwise: the rules printed are used as any others
        how = "parsed with"
        run.assumptions.append("what is printed could not be put in src/peg/rules.rs: it was used as a set of rules instead")
    elif again[0] is None:
        run.violation("installed, the program that prints the rules fails (%s): %s" % (again[1], again[2]), {"printed": code, "again": again[2]})
    else:
        two = compile.build_all([again[0]], "%s/generated" % run.work)[0]
        if not two["ok"]:
            run.violation("what is printed once installed does not compile: %s" % two["why"], {"printed": again[0]})
        else:
            judge_self(run, [{"id": "printed", "events": [{"by": "built in", "res": {"k": "rules", "rules": one["built"]}},
                                                          {"by": "installed", "res": {"k": "rules", "rules": two["built"]}}]}], "printed")
    dic = dictionary.mine(core.REPO)
    n, ns = READ[run.tier]
    strs = {k: strings(e) for k, e in mine.items()}
    cases = [{"id": "self", "text": peg.cp(selftext.TEXT)}]
    cases += genfront.front_cases("C18", run.seed, n, dic, maxlen=400)
    cases += sampled(run, [strs, meta.META] if "main" in strs else [meta.META], ns)
    run.sample({"text": "".join(map(chr, cases[-1]["text"]))})
    ans = [core.run_harness(exe, [{"op": "peg", "text": c["text"]} for c in cases], run.work, "builtin", shards=8)]
    if other:
        ans.append(core.run_harness(other, [{"op": "peg", "text": c["text"]} for c in cases], run.work, "installed", shards=8))
    else:
        ans.append(core.run_harness(exe, [{"op": "gparse", "text": c["text"], "rules": one["built"]} for c in cases], run.work, "parsed", shards=8))
    rows, kinds = [], {}
    for c, a, b in zip(cases, *ans):
        if "skipped" in (a.get("bad"), b.get("bad")):
            continue
        res = [{"k": x["bad"]} if "bad" in x else x["res"] for x in (a, b)]
        if not other and res[0]["k"] == "rules":
            res[0] = {"k": "accepted"}
        kinds[res[0]["k"]] = kinds.get(res[0]["k"], 0) + 1
        rows.append(dict(c, events=[{"by": "built in", "res": res[0]}, {"by": how, "res": res[1]}]))
    judge_self(run, rows, "grammar")
    run.detail["compared"] = {"texts": len(rows), "outcomes": kinds, "second_reading": how, "characters": sum(len(c["text"]) for c in rows), "rules_printed": len(mine)}
    run.log("compared", len(rows), kinds)


def strings(e):
    """names of rules as strings"""
    if e["k"] == "ref":
        return dict(e, n=e["n"] if isinstance(e["n"], str) else "".join(map(chr, e["n"])))
    if "e" in e:
        return dict(e, e=strings(e["e"]))
    if "es" in e:
        return dict(e, es=[strings(x) for x in e["es"]])
    return e
