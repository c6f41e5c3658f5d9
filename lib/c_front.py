"""C12..C16: reading grammars.

1. TLC checks that reading what PegText writes gives it back (spec/MCFront.tla): the
   machine with the grammar of grammars, then PegFront.  Every text is printed with
   what it stands for.
2. Those texts are read by the code.
3. Random grammar texts are read by the code, and what it answered is checked by TLC
   to be what the specification reads (spec/TraceFront.tla).
4. Many more random grammars are written, in random layouts; TLC checks that their text
   is one that PegText writes, and that the code reads what was written
   (spec/TraceWritten.tla)."""
import json

import core
import dictionary
import genfront
import genwrite
import mc
import pump
from c_parse import JUDGED

PROPS = ["C12", "C13", "C14", "C15", "C16"]
#  (how many, up to which length, judged by the meaning of the whole parse rather than step by step)
CASES = {"quick": [(60, 90, False), (3000, 110, True), (60, 420, True)],
         "thorough": [(600, 110, False), (40000, 120, True), (2000, 450, True)]}
WRITTEN = {"quick": 9000, "thorough": 150000}
#  long texts cost more
SHARE = {"C12": 0.5, "C13": 1.2, "C14": 0.75, "C15": 1.2, "C16": 0.6}
#  what of a reading each property is about
PART = {"C12": {"denotes"}, "C13": {"denotes"}, "C14": {"denotes"}, "C15": {"verdict", "error"}, "C16": {"denotes"}}


def shown(t):
    return "".join(map(chr, t))


def result(a):
    return {"k": a["bad"]} if "bad" in a else a["res"]


def read_all(run, exe, texts, name):
    return core.run_harness(exe, [{"op": "peg", "text": t} for t in texts], run.work, name, shards=8)


def norm(rules):
    return sorted(([n, e] for n, e in rules), key=lambda p: p[0])


def broken(exp, res):
    """what a reading gets wrong, against what the specification reads"""
    out = set()
    if exp["k"] == "rules":
        if res["k"] != "rules":
            out |= {"denotes", "verdict"}
        elif norm(exp["rules"]) != norm(res["rules"]):
            out.add("denotes")
    else:
        if res["k"] != "err":
            out |= {"verdict", "error"}
        elif not (all(res[x] == exp["pos"][x] for x in ("n", "row", "col", "sl")) and res["lb"] == exp["lb"] and res["la"] == exp["la"]
                  and res["prio"] == exp["prio"]):
            out.add("error")
    return out


def replay(run, exe, behaviours):
    ans = read_all(run, exe, [b["text"] for b in behaviours], "replay")
    n = 0
    for b, a in zip(behaviours, ans):
        if a.get("bad") == "skipped":
            continue
        n += 1
        if broken(b["res"], result(a)) & PART[run.prop]:
            run.violation("grammar %r: the specification reads %s, the code %s" % (shown(b["text"]), json.dumps(b["res"]), json.dumps(result(a))),
                          {"text": b["text"], "shown": shown(b["text"]), "expected": b["res"], "got": result(a)})
    run.traces += n
    run.detail["replayed"] = n


def judge(run, rows, part=2500):
    """rows: id, text, res -> [(row, kind, broken)]"""
    out = []
    undecided = 0
    by = {c["id"]: c for c in rows}
    for i in range(0, len(rows), part):
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, rows[i:i + part])
        r = core.tlc("TraceFront", env={"TRACE": p, "MAXSTEPS": "60000"}, timeout=1500, xmx="12g")
        got = JUDGED.findall(r.text)
        if len(got) != len(rows[i:i + part]) or not r.clean:
            raise core.ToolError("TLC judged %d of %d texts:\n%s" % (len(got), len(rows), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        for w, k, n, kind, seen, b in got:
            if w == "UNDECIDED":
                undecided += 1
                continue
            run.traces += 1
            out.append((by[k], kind, {x for x in ("denotes", "verdict", "error") if '"%s"' % x in b}))
    return out, undecided


def validate(run, exe, cases):
    ans = read_all(run, exe, [c["text"] for c in cases], "cases")
    rows = [dict(c, res=result(a)) for c, a in zip(cases, ans) if a.get("bad") != "skipped"]
    got, undecided = judge(run, rows)
    kinds = {}
    for c, kind, b in got:
        kinds[kind] = kinds.get(kind, 0) + 1
        if b & PART[run.prop]:
            run.violation("grammar %r: not what the specification reads (%s; %s): %s" % (shown(c["text"]), kind, sorted(b), json.dumps(c["res"])[:500]),
                          dict(c, shown=shown(c["text"]), kind=kind))
    run.detail["validated"] = {"texts": len(rows), "outcomes": kinds, "undecided": undecided, "judged_step_by_step": sum(not c["big"] for c in rows), "longest_text": max(len(c["text"]) for c in rows),
                               "characters": sum(len(c["text"]) for c in rows)}
    run.log("validated", len(rows), kinds)


def written(run, exe, count, part=6000):
    cases = genwrite.cases(run.prop, run.seed, count, dictionary.mine(core.REPO))
    ans = read_all(run, exe, [c["text"] for c in cases], "written")
    rows = [dict(c, res=result(a)) for c, a in zip(cases, ans) if a.get("bad") != "skipped"]
    by = {c["id"]: c for c in rows}
    n = 0
    for i in range(0, len(rows), part):
        p = "%s/written.ndjson" % run.work
        core.write_nd(p, rows[i:i + part])
        r = core.tlc("TraceWritten", env={"TRACE": p}, timeout=1500, xmx="12g")
        got = JUDGED.findall(r.text)
        bad = [k for w, k, *_ in got if w == "UNDECIDED"]
        if len(got) != len(rows[i:i + part]) or not r.clean or bad:
            raise core.ToolError("TLC judged %d of %d written texts; not admitted: %s\n%s" % (
                len(got), len(rows[i:i + part]), [shown(by[k]["text"]) for k in bad[:3]], r.text[-2000:]))
        run.states += r.distinct
        run.transitions += r.generated
        for w, k, _, kind, _, b in got:
            n += 1
            b = {x for x in ("denotes", "verdict") if '"%s"' % x in b}
            if b & PART[run.prop]:
                c = by[k]
                run.violation("grammar %r: not read as it was written (%s): %s" % (shown(c["text"]), sorted(b), json.dumps(c["res"])[:500]),
                              dict(c, shown=shown(c["text"])))
    run.traces += n
    run.detail["written"] = {"texts": len(rows), "characters": sum(len(c["text"]) for c in rows)}
    run.log("written", len(rows))


def cases_of(run):
    out = []
    dic = dictionary.mine(core.REPO)
    share = SHARE.get(run.prop, 1)
    for k, (n, ln, big) in enumerate(CASES[run.tier]):
        for c in genfront.front_cases(run.prop, "%s.%d" % (run.seed, k), int(n * share), dic, maxlen=ln, fuel=12000 if ln < 200 else 25000):
            c["id"] = "%d:%s" % (k, c["id"])
            c["big"] = big
            out.append(c)
    return out


def check(run):
    exe = core.build_harness()
    run.assumptions += ["spec/MetaGrammar.tla is the documented grammar of grammars"]
    behaviours = mc.check(run, "MCFront", run.prop, timeout=3000)
    run.sample({"text replayed": shown(behaviours[len(behaviours) // 2]["text"])})
    replay(run, exe, behaviours)
    cases = cases_of(run)
    run.sample({"text validated": shown(cases[len(cases) // 2]["text"])})
    run.log("generated", len(cases))
    validate(run, exe, cases)
    written(run, exe, WRITTEN[run.tier])
    pump.front(run, exe)
