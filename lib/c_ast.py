"""C19..C22: what can be done with a tree.

1. TLC checks AstOps over pipelines of operations on small trees (spec/MCAst.tla) and
   prints every step with what it gives.
2. Those steps are done by the code.
3. Random pipelines on random trees, and on trees that parsing gives, are run on the
   code and every step of them is checked by TLC to be one of the specification
   (spec/TraceAst.tla)."""
import json
import random

import core
import dictionary
import gen
import genast
import mc
import peg
import pump
from c_parse import JUDGED, request

PROPS = ["C19", "C20", "C21", "C22"]
FUN = genast.FUN
CASES = {"quick": 16000, "thorough": 160000}


def replay(run, exe, behaviours):
    f = FUN[run.prop]
    bs, seen = [], set()
    for b in behaviours:
        k = json.dumps(b, sort_keys=True)
        if b["f"] == f and k not in seen:
            seen.add(k)
            bs.append(b)
    ans = core.run_harness(exe, [{"op": "ast", "tree": b["tree"], "steps": [{"f": b["f"], "names": b["names"]}]} for b in bs], run.work, "replay", shards=8)
    n = 0
    for b, a in zip(bs, ans):
        if a.get("bad") == "skipped":
            continue
        n += 1
        got = a["steps"][0] if "bad" not in a else a
        if "bad" in a or got["r"] != b["r"] or got["after"] != b["tree"]:
            run.violation("%s %s of %s: the specification says %s, the code %s" % (f, b["names"], json.dumps(b["tree"]), json.dumps(b["r"]), json.dumps(got)),
                          {"f": f, "names": b["names"], "tree": b["tree"], "expected": b["r"], "got": got})
    if not n:
        raise core.ToolError("nothing to replay")
    run.traces += n
    run.detail["replayed"] = n


def parsed_trees(run, exe, dic):
    """trees that parsing gives"""
    cases = [c for c in gen.parse_cases("C02", "%s.trees" % run.seed, run.pick(400, 4000), dic) if len(c["text"]) <= 60]
    out = []
    for a in core.run_harness(exe, [request(c) for c in cases], run.work, "trees", shards=8):
        if "bad" not in a and a["res"]["k"] == "ok":
            t, depth = untoken(a["res"]["ast"])
            if depth <= 100:
                out.append(t)
    return out


def untoken(ts):
    top, deepest = [[]], 0
    for x in ts:
        if x["t"] == "b":
            top.append([])
            deepest = max(deepest, len(top))
        elif x["t"] == "x":
            cs = top.pop()
            top[-1].append({"t": "r", "n": x["n"], "c": cs})
        else:
            top[-1].append(x)
    return top[0][0], deepest


def validate(run, exe, cases):
    f = FUN[run.prop]
    ans = core.run_harness(exe, [{"op": "ast", "tree": c["tree"], "steps": c["steps"]} for c in cases], run.work, "cases", shards=8)
    rows = []
    for c, a in zip(cases, ans):
        if a.get("bad") == "skipped":
            continue
        got = a.get("steps", [{"bad": a.get("bad")} for _ in c["steps"]])
        rows.append(dict(c, steps=[dict(s, **g) for s, g in zip(c["steps"], got)]))
    by = {c["id"]: c for c in rows}
    n, other = 0, 0
    for i in range(0, len(rows), 10000):
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, rows[i:i + 10000])
        r = core.tlc("TraceAst", env={"TRACE": p}, timeout=1500, xmx="12g")
        got = JUDGED.findall(r.text)
        if not r.clean or len({g[1] for g in got}) != len(rows[i:i + 10000]):
            raise core.ToolError("TLC judged %d of %d pipelines:\n%s" % (len({g[1] for g in got}), len(rows), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        for _, k, step, kind, _, broken in got:
            if '"%s"' % f in broken:
                c = by[k]
                s = c["steps"][int(step)]
                run.violation("step %s (%s %s) of a pipeline on %s: not a step of the specification: %s" % (
                    step, f, s["names"], json.dumps(c["tree"])[:300], json.dumps(s.get("r", s))[:300]), c)
            if kind == f:
                n += 1
            else:
                other += 1
    run.traces += len(rows)
    run.detail["validated"] = {"pipelines": len(rows), "steps_of_" + f: n, "other_steps": other}
    run.log("validated", len(rows), n, other)


def check(run):
    exe = core.build_harness()
    behaviours = mc.check(run, "MCAst", run.prop, timeout=3000)
    run.log("behaviours", len(behaviours))
    run.sample({"step replayed": behaviours[len(behaviours) // 2]})
    replay(run, exe, behaviours)
    trees = parsed_trees(run, exe, dictionary.mine(core.REPO))
    cases = genast.ast_cases(run.prop, run.seed, CASES[run.tier], trees)
    run.detail["trees_from_parsing"] = len(trees)
    run.sample({"pipeline validated": cases[7]})
    validate(run, exe, cases)
    pump.ast(run, exe, FUN[run.prop])
