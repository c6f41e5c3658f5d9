"""C10: what rule sets hold.

1. TLC checks RuleSets over every short history of creating, adding and merging in a
   few registers (spec/MCSets.tla), and prints the histories with what every step shows.
2. Those histories are done by the code.
3. Random long histories on large rule sets are run on the code, and what every step
   showed is checked by TLC (spec/TraceSets.tla)."""
import json
import random

import core
import dictionary
import gen
import mc
import nearby
import peg
from c_parse import JUDGED

PROPS = ["C10"]
CASES = {"quick": 6000, "thorough": 60000}


def chars(cs):
    return "".join(map(chr, cs))


def named(e):
    """rule names as strings, as the specification has them"""
    if e["k"] == "ref" and not isinstance(e["n"], str):
        e = dict(e, n=chars(e["n"]))
    if "es" in e:
        e = dict(e, es=[named(x) for x in e["es"]])
    if "e" in e:
        e = dict(e, e=named(e["e"]))
    return e


def shown(step, o):
    if step["a"] == "parse":
        return o
    return [[chars(n), named(e)] for n, e in o]


def undbg(e):
    e = {k: v for k, v in e.items() if k != "dbg"}
    if "es" in e:
        e["es"] = [undbg(x) for x in e["es"]]
    if "e" in e:
        e["e"] = undbg(e["e"])
    return e


def replay(run, exe, behaviours):
    ans = core.run_harness(exe, [{"op": "hist", "steps": b["steps"]} for b in behaviours], run.work, "replay", shards=8)
    n = 0
    for b, a in zip(behaviours, ans):
        if a.get("bad") == "skipped":
            continue
        n += 1
        wrong = None
        if "bad" in a:
            wrong = a["bad"]
        else:
            for i, (s, x, o) in enumerate(zip(b["steps"], b["out"], a["out"])):
                if x["k"] == "set":
                    exp = x["s"] or {}
                    got = shown(s, o)
                    if len(got) != len(exp) or dict(got) != exp:
                        wrong = "step %d shows %s, not %s" % (i + 1, json.dumps(got), json.dumps(exp))
                        break
                elif o["res"] != o["fresh"]:
                    #  what it should be, if parsing is right, is x["o"]
                    wrong = "step %d gives %s, and with a new rule set %s" % (i + 1, json.dumps(o["res"]), json.dumps(o["fresh"]))
                    break
        if wrong:
            run.violation("history %s: %s" % (json.dumps(b["steps"]), wrong), {"history": b, "answer": a})
    run.traces += n
    run.detail["replayed"] = n


class Histories:
    """random histories; what the registers hold is followed only to choose what comes next"""

    def __init__(self, seed, dic):
        self.g = gen.Gen("%s/C10" % seed, dic)
        self.r = self.g.rng

    def expr(self, names, al, small):
        r = self.r
        if small:
            return r.choice([peg.lit([r.choice(al)]), peg.ref(r.choice(names)), peg.seq(peg.lit([r.choice(al)]), peg.ref(r.choice(names))),
                             peg.alt(peg.lit([r.choice(al)]), peg.ref(r.choice(names))), peg.rep(peg.lit([r.choice(al)]), 0, 2), peg.seq(), peg.dot(),
                             peg.cls([r.choice(al)], []), peg.err("e")])
        return undbg(self.g.expr(r.choice([1, 2, 3]), names, al, {}, names))

    def one(self):
        r = self.r
        al = self.g.alphabet(r.choice(["ab", "ab", "ascii", "uni"]))
        pool = ["main", "a", "A", "aa", "a.b", ".a", "a'", "\u00e9", "e\u0301", "", " ", "main ", "Main", "b", "x.main"]
        big = r.random() < 0.04
        names = ["main"] + r.sample(pool[1:], r.randint(1, 6)) + (["r%d" % i for i in range(r.choice([20, 63, 64, 65, 130, 300]))] if big else [])
        if r.random() < 0.2:
            names = list(dict.fromkeys(["main"] + nearby.crowd(r, r.choice(["main", "a", "a.b"]), r.randint(3, 7))))
        small = r.random() < 0.7
        steps, regs = [], {}
        for _ in range(r.choice([3, 5, 8, 12, 20, 40] if not big else [4, 6, 9])):
            x = r.random()
            live = sorted(regs)
            a = r.choice([1, 2, 3])
            if not live or x < 0.16:
                what = r.choice(["new", "macro", "macro", "read"])
                if what == "read":
                    lines = []
                    for _ in range(r.choice([0, 1, 2, 3, 5])):
                        n = r.choice([n for n in names if n.isascii() and n.strip() == n and n != ""] or ["main"])
                        lines.append("%s = %s" % (n, r.choice(["'%s'" % r.choice("ab"), '"a"', "main", "[a-c]", "'a' / 'b'", "'a'*", "."])))
                    steps.append({"a": "read", "r": a, "text": peg.cp("\n".join(lines))})
                    regs[a] = {l.split(" = ")[0]: peg.lit("a") for l in lines}
                else:
                    k = r.choice([0, 1, 1, 2, 3]) if what == "macro" else r.choice([0, 1, 3, len(names)])
                    ns = [r.choice(names) for _ in range(k)] if what == "macro" else r.sample(names, min(k, len(names)))
                    ps = [[n, self.expr(names, al, small)] for n in ns]
                    steps.append({"a": what, "r": a, "rules": ps})
                    regs[a] = dict(ps)
            elif x < 0.55:
                a = r.choice(live)
                have = sorted(regs[a])
                n = r.choice(have) if have and r.random() < 0.45 else r.choice(names)
                e = self.expr(names, al, small)
                if n in regs[a] and r.random() < 0.08:
                    e = regs[a][n]
                steps.append({"a": "add", "r": a, "name": n, "e": e})
                regs[a][n] = e
            elif x < 0.8 and len(live) > 1:
                a, b = r.sample(live, 2)
                steps.append({"a": "merge", "r": a, "s": b})
                regs[a] = dict(regs[b], **regs[a])
                del regs[b]
            else:
                a = r.choice(live)
                if any(s["a"] == "read" and s["r"] == a for s in steps) or not small and r.random() < 0.5:
                    t = [r.choice(al) for _ in range(r.randint(0, 3))]
                else:
                    t = self.g.texts(regs[a] if "main" in regs[a] else {"main": peg.dot()}, al, 1, 6, 12, 3)[0][:40]
                est = peg.Estimate(regs[a], t, 1500)
                try:
                    est.run()
                except KeyError:
                    pass
                if not est.gave_up:
                    steps.append({"a": "parse", "r": a, "text": t})
        return steps


def cases_of(run, n):
    h = Histories(run.seed, dictionary.mine(core.REPO))
    out = []
    while len(out) < n:
        steps = h.one()
        if steps:
            out.append({"id": "h-%d" % len(out), "steps": steps})
    return out


def validate(run, exe, cases):
    ans = core.run_harness(exe, [{"op": "hist", "steps": c["steps"]} for c in cases], run.work, "cases", shards=8)
    rows = []
    for c, a in zip(cases, ans):
        if a.get("bad") == "skipped":
            continue
        if "bad" in a:
            run.violation("history %s: the code did not answer: %s" % (json.dumps(c["steps"])[:400], a["bad"]), dict(c, answer=a))
            continue
        rows.append(dict(c, steps=[dict(s, shown=shown(s, o)) for s, o in zip(c["steps"], a["out"])]))
    by = {c["id"]: c for c in rows}
    steps, kinds = 0, {}
    for i in range(0, len(rows), 5000):
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, rows[i:i + 5000])
        r = core.tlc("TraceSets", env={"TRACE": p}, timeout=1500, xmx="12g")
        got = JUDGED.findall(r.text)
        if not r.clean or len(got) != len(rows[i:i + 5000]):
            raise core.ToolError("TLC judged %d of %d histories:\n%s" % (len(got), len(rows), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        for _, k, n, kind, _, broken in got:
            steps += int(n)
            if broken != "{}":
                c = by[k]
                s = c["steps"][int(n) - 1]
                run.violation("step %s (%s) of a history: not a step of the specification: shows %s" % (n, s["a"], json.dumps(s["shown"])[:400]), c)
    for c in rows:
        for s in c["steps"]:
            kinds[s["a"]] = kinds.get(s["a"], 0) + 1
    run.traces += len(rows)
    run.detail["validated"] = {"histories": len(rows), "steps": steps, "kinds": kinds,
                               "most_rules": max(len(s["shown"]) for c in rows for s in c["steps"] if s["a"] != "parse")}
    run.log("validated", len(rows), kinds)


def check(run):
    exe = core.build_harness()
    behaviours = mc.check(run, "MCSets", "C10", timeout=3000)
    run.sample({"history replayed": behaviours[len(behaviours) // 2]})
    replay(run, exe, behaviours)
    cases = cases_of(run, CASES[run.tier])
    run.sample({"history validated": cases[7]})
    validate(run, exe, cases)
