"""C01..C09: the parse engine.

1. TLC checks PegMachine against PegSem and the property over a family of small
   configurations (spec/MCParse.tla), printing what every configuration gives.
2. Those behaviours are replayed on the code.
3. Random cases are run on the code and what it answered is checked by TLC to be
   the behaviour of the same machine (spec/TraceParse.tla)."""
import json
import re

import core
import dictionary
import gen
import mc
import peg

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"]
CASES = {"quick": 2000, "thorough": 30000}
WHOLE = {"quick": 13000, "thorough": 150000}
JUDGED = re.compile(r'<<\s*"(JUDGED|UNDECIDED)",\s*"([^"]*)",\s*(\d+),\s*"(\w+)",\s*(\{[^}]*\}),\s*(\{[^}]*\})\s*>>')


def request(c):
    return {"op": "parse", "rules": [[k, v] for k, v in c["rules"].items()], "text": c["text"]}


def answers(c, a):
    """res and dres of an answer of the harness; notes the ranges of classes, as they are shown"""
    if "bad" in a:
        return {"k": a["bad"]}, {"k": a["bad"]}
    it = iter(a["dbgs"])
    for e in peg.all_exprs(c["rules"]):
        if e["k"] == "match":
            e["dbg"] = next(it)
    for r in (a["res"], a["dres"]):
        if r["k"] == "err":
            r["walk"] = [x[2:] if x.startswith("r:") else x for x in r["walk"]]
    return a["res"], a["dres"]


def show(c):
    return {"rules": c["rules"], "text": c["text"], "shown": "".join(map(chr, c["text"]))[:300]}


# ---- behaviours of the specification, on the code
def differs(prop, exp, res, dres):
    bad = res["k"] not in ("ok", "err") or dres["k"] not in ("ok", "err")
    x = exp["res"]
    if bad:
        return prop in ("C01", "C03", "C07", "C08") and "the code did not answer: %s" % res["k"]
    both_err = x["k"] == res["k"] == "err"
    both_ok = x["k"] == res["k"] == "ok"
    verdict = x["k"] == res["k"]
    tree = not both_ok or res["ast"] == x["ast"]
    where = not both_err or res["n"] == x["pos"]["n"]
    located = not both_err or not where or (all(res[f] == x["pos"][f] for f in ("n", "row", "col", "sl"))
                                            and res["lb"] == x["lb"] and res["la"] == x["la"])
    prio = not both_err or res["prio"] == x["prio"]
    abort = x["k"] == "err" and x["prio"] == "critical"
    every = verdict and tree and where and located and prio
    if prop == "C01":
        return not verdict and "verdict"
    if prop == "C02":
        return not tree and "tree"
    if prop in ("C03", "C08"):
        return not every and "outcome"
    if prop == "C04":
        return not located and "location"
    if prop == "C05":
        return not abort and not where and "place of the error"
    if prop == "C06":
        if abort and x["d"] != "leftrec":
            return not (both_err and where and prio and (x["d"] != "user" or res["d"] == x["s"])) and "abort"
        return not prio and "priority"
    if prop == "C07":
        return abort and x["d"] == "leftrec" and not (both_err and where and prio) and "left recursion"
    if prop == "C09":
        same = {k: v for k, v in res.items() if k != "walk"} == {k: v for k, v in dres.items() if k != "walk"}
        walk = not both_err or (res["walk"] == [] and (not exp["d"] or dres["walk"] == x["walk"]))
        return not (same and walk) and "debug"
    raise ValueError(prop)


def replay(run, exe, behaviours):
    cases = [{"rules": b["rules"], "text": b["text"]} for b in behaviours]
    ans = core.run_harness(exe, [request(c) for c in cases], run.work, "replay", shards=8)
    n = 0
    for c, b, a in zip(cases, behaviours, ans):
        if a.get("bad") == "skipped":
            continue
        res, dres = answers(c, a)
        n += 1
        w = differs(run.prop, b, res, dres)
        if w:
            run.violation("%s: rules %s text %r: the specification says %s, the code %s" % (
                w, json.dumps(c["rules"]), "".join(map(chr, c["text"])), json.dumps(b["res"]), json.dumps(res)),
                dict(show(c), expected=b["res"], got=res, debug=dres))
    run.traces += n
    run.detail["replayed"] = n


# ---- behaviours of the code, against the specification
def validate(run, exe, cases, big):
    """big: judged by the meaning of the whole parse, not step by step"""
    label = "judged_whole" if big else "judged_step_by_step"
    ans = core.run_harness(exe, [request(c) for c in cases], run.work, "cases", shards=8)
    rows, skipped = [], 0
    for c, a in zip(cases, ans):
        if a.get("bad") == "skipped":
            skipped += 1
            continue
        res, dres = answers(c, a)
        names = set(c["rules"]) | {e["n"] for e in peg.all_exprs(c["rules"]) if e["k"] == "ref"} | {"main"}
        rows.append(dict(c, names={x: peg.cp(x) for x in names}, big=big, res=res, dres=dres))
    by = {c["id"]: c for c in rows}
    kinds, steps, undecided, rare = {}, 0, 0, {}
    for part in range(0, len(rows), 12000):
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, rows[part:part + 12000])
        r = core.tlc("TraceParse", env={"TRACE": p, "MAXSTEPS": "60000"}, timeout=1500)
        got = JUDGED.findall(r.text)
        if len(got) != len(rows[part:part + 12000]) or not r.clean:
            raise core.ToolError("TLC judged %d of %d traces:\n%s" % (len(got), len(rows), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        for w, i, n, kind, seen, broken in got:
            if w == "UNDECIDED":
                undecided += 1
                continue
            run.traces += 1
            steps += int(n)
            kinds[kind] = kinds.get(kind, 0) + 1
            for x in re.findall(r'"(\w+)"', seen):
                rare[x] = rare.get(x, 0) + 1
            if '"%s"' % run.prop in broken:
                c = by[i]
                run.violation("rules %s text %r: not a behaviour of the specification (%s): %s debug %s" % (
                    json.dumps(c["rules"])[:400], "".join(map(chr, c["text"])), kind, json.dumps(c["res"])[:300], json.dumps(c["dres"])[:200]),
                    dict(show(c), got=c["res"], debug=c["dres"], kind=kind))
    run.detail[label] = {"cases": len(rows), "outcomes": kinds, "steps_of_the_machine": steps, "rare": rare,
                               "undecided": undecided, "skipped_after_hangs": skipped,
                               "longest_text": max(len(c["text"]) for c in rows)}
    run.log(label, len(rows), kinds)


def check(run):
    exe = core.build_harness()
    run.log("harness built")
    run.assumptions += ["rule nesting fits the stack of the code (1 GB thread)",
                        "Debug formatting of characters in class failures is taken from the Rust library"]
    behaviours = mc.check(run, "MCParse", run.prop)
    run.sample({"behaviour replayed": behaviours[len(behaviours) // 2]})
    replay(run, exe, behaviours)
    dic = dictionary.mine(core.REPO)
    cases = gen.parse_cases(run.prop, run.seed, CASES[run.tier], dic)
    run.sample({"case validated": show(cases[len(cases) // 2])})
    run.log("generated", len(cases))
    validate(run, exe, cases, False)
    if run.prop != "C07":
        #  C07 looks at what the machine goes through
        cases = gen.parse_cases(run.prop, "%s.whole" % run.seed, WHOLE[run.tier], dic)
        validate(run, exe, [c for c in cases if len(c["text"]) <= 150], True)
    import pump
    pump.parse(run, exe, dic)
