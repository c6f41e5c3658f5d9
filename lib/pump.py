"""Inputs with a part repeated thousands of times, on the stack a thread has by default;
what they give is predicted by the specification from small counts (spec/TracePump.tla)."""
import json

import core
import genpump
import peg
from c_parse import JUDGED

COUNT = {"quick": 90, "thorough": 1500}
#  of texts that are read to their end
SLOW = ("C12", "C14", "C16")
LABELS = {"C01": {"verdict"}, "C02": {"tree"}, "C03": {"verdict", "tree", "place", "located", "words", "prio"}, "C04": {"located"},
          "C05": {"place", "words"}, "C06": {"prio"}, "C07": {"answer"}, "C08": {"verdict", "tree", "place", "located", "words", "prio"},
          "C09": {"walk", "dwalk"}, "C12": {"rules"}, "C13": {"rules"}, "C14": {"rules"}, "C16": {"rules"},
          "C15": {"answer", "verdict", "place", "located", "words", "prio"}, "C17": {"answer"}, "C19": {"tree"}, "C20": {"tree"}, "C21": {"tree"}, "C22": {"tree"}}


def request(c):
    q = {k: c[k] for k in ("what", "pre", "unit", "post", "at", "dat", "root", "f", "names") if k in c}
    if "rules" in c:
        q["rules"] = [[k, v] for k, v in c["rules"].items()]
    return dict(q, op="pump")


def shown(c):
    t = lambda x: "".join(map(chr, x))
    if c["what"] == "ast":
        return json.dumps({k: c[k] for k in ("root", "pre", "unit", "post", "f", "names")})
    return "%r %r.. %r%s" % (t(c["pre"]), t(c["unit"]), t(c["post"]), " rules " + json.dumps(c["rules"]) if "rules" in c else "")


def check(run, exe, cases):
    ans = core.run_harness(exe, [request(c) for c in cases], run.work, "pump", timeout_ms=90000, shards=8)
    rows = []
    for c, a in zip(cases, ans):
        if a.get("bad") == "skipped":
            continue
        if "bad" in a:
            a = {"dbgs": [], "res": [{"k": a["bad"]} for _ in c["at"]], "dres": [{"k": a["bad"]} for _ in c["dat"]]}
        row = dict(c, res=a["res"], dres=a["dres"])
        if "rules" in c:
            it = iter(a["dbgs"])
            for e in peg.all_exprs(c["rules"]):
                if e["k"] == "match":
                    e["dbg"] = next(it, [])
            names = set(c["rules"]) | {e["n"] for e in peg.all_exprs(c["rules"]) if e["k"] == "ref"} | {"main"}
            row["names"] = {x: peg.cp(x) for x in names}
        rows.append(row)
    by = {c["id"]: c for c in rows}
    judged, kinds = 0, {}
    for i in range(0, len(rows), 500):
        p = "%s/pump.ndjson" % run.work
        core.write_nd(p, rows[i:i + 500])
        r = core.tlc("TracePump", env={"TRACE": p}, timeout=1500)
        got = JUDGED.findall(r.text)
        if len(got) != len(rows[i:i + 500]) or not r.clean:
            raise core.ToolError("TLC judged %d of %d repeated inputs:\n%s" % (len(got), len(rows), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        for w, k, _, kind, _, b in got:
            if w == "UNDECIDED":
                continue
            judged += 1
            kinds[kind] = kinds.get(kind, 0) + 1
            hit = {x for x in LABELS[run.prop] if '"%s"' % x in b}
            if hit:
                c = by[k]
                run.violation("%s, repeated: not what the specification says (%s, %s): for %s the code gives %s" % (
                    shown(c)[:900], kind, sorted(hit), c["at"][-2:], json.dumps(c["res"][-2:])[:600]), c)
    if judged * 3 < len(rows):
        raise core.ToolError("only %d of %d repeated inputs were decided" % (judged, len(rows)))
    run.traces += judged
    run.detail["repeated_inputs"] = {"cases": len(rows), "decided": judged, "outcomes": kinds, "stack": "2 MB",
                                     "longest": max((len(c["unit"]) * max(c["at"]) for c in rows), default=0)}
    run.log("repeated inputs", len(rows), judged, kinds)


def parse(run, exe, dic):
    check(run, exe, genpump.parse_cases(run.prop, run.seed, COUNT[run.tier], dic))


def front(run, exe):
    check(run, exe, genpump.peg_cases(run.prop, run.seed, run.pick(11 if run.prop in SLOW else 24, 300)))


def code(run, exe):
    check(run, exe, genpump.code_cases(run.seed, run.pick(8, 100)))


def ast(run, exe, f):
    check(run, exe, genpump.ast_cases(f, run.seed, run.pick(60, 1000)))
