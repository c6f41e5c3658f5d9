"""C23 and C24: the helpers that walk lists of nodes, and flat lists of them.

1. TLC checks AstOps over walks of short lists (spec/MCWalk.tla) and prints every
   step with what it gives.
2. Those steps are done by the code.
3. Random walks, in which every helper goes on from what the one before left, are run
   on the code and checked by TLC to be walks of the specification (spec/TraceWalk.tla)."""
import json

import core
import genast
import mc
from c_parse import JUDGED

PROPS = ["C23", "C24"]
CASES = {"quick": 50000, "thorough": 500000}


def request(op, nodes, steps):
    return {"op": op, "nodes": nodes, "steps": steps}


def replay(run, exe, op, behaviours):
    ans = core.run_harness(exe, [request(op, b["nodes"], [{"op": b["op"], "a": b["a"], "enter": False}]) for b in behaviours], run.work, "replay", shards=8)
    n = 0
    for b, a in zip(behaviours, ans):
        if a.get("bad") == "skipped":
            continue
        n += 1
        got = a if "bad" in a else a["steps"][0]
        exp = {"ok": True, "got": b["got"], "rest": b["rest"]} if b["ok"] else {"ok": False}
        if got != exp or a["after"] != b["nodes"]:
            run.violation("%s %s of %s: the specification says %s, the code %s" % (b["op"], b["a"], json.dumps(b["nodes"]), json.dumps(exp), json.dumps(got)),
                          dict(b, answer=got))
    run.traces += n
    run.detail["replayed"] = n


def validate(run, exe, op, cases):
    ans = core.run_harness(exe, [request(op, c["nodes"], c["steps"]) for c in cases], run.work, "cases", shards=8)
    rows = []
    for c, a in zip(cases, ans):
        if a.get("bad") == "skipped":
            continue
        got = a.get("steps", [{} for _ in c["steps"]])
        rows.append(dict(c, flat=op == "flat", after=a.get("after", []), steps=[dict(s, **g) for s, g in zip(c["steps"], got)]))
    by = {c["id"]: c for c in rows}
    kinds, steps = {}, 0
    for i in range(0, len(rows), 20000):
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, rows[i:i + 20000])
        r = core.tlc("TraceWalk", env={"TRACE": p}, timeout=1500, xmx="12g")
        got = JUDGED.findall(r.text)
        if not r.clean or len(got) != len(rows[i:i + 20000]):
            raise core.ToolError("TLC judged %d of %d walks:\n%s" % (len(got), len(rows), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        for _, k, n, kind, _, broken in got:
            steps += int(n)
            if broken != "{}":
                c = by[k]
                s = c["steps"][int(n) - 1]
                run.violation("step %s (%s %s) of a walk of %s: not a step of the specification: %s" % (
                    n, s["op"], s["a"], json.dumps(c["nodes"])[:300], json.dumps({x: s[x] for x in ("ok", "got", "rest") if x in s})[:300]), c)
    for c in rows:
        for s in c["steps"]:
            k = "%s %s" % (s["op"], "ok" if s.get("ok") else "no")
            kinds[k] = kinds.get(k, 0) + 1
    run.traces += len(rows)
    run.detail["validated"] = {"walks": len(rows), "steps": steps, "outcomes": kinds}
    run.log("validated", len(rows), steps)


def check(run):
    op = "flat" if run.prop == "C24" else "tree"
    exe = core.build_harness()
    behaviours = mc.check(run, "MCWalk", run.prop, timeout=3000)
    run.sample({"step replayed": behaviours[len(behaviours) // 2]})
    replay(run, exe, op, behaviours)
    cases = genast.walk_cases(run.prop, run.seed, CASES[run.tier], op)
    run.sample({"walk validated": cases[7]})
    validate(run, exe, op, cases)
