"""C11: parsing is a function of the rules and the text.

1. TLC checks two interleaved parsers doing several jobs each (spec/MCPure.tla): all
   get the same from the same job, whatever the schedule.
2. Jobs are done by the code again and again: one after the other in any order, with
   and without debug in between, with the rules registered again in another order, with
   rules nobody refers to, from eight threads at the same time sharing the rule sets,
   and in another process.  TLC checks that what was recorded is a behaviour of a memo
   (spec/TracePure.tla)."""
import json

import core
import dictionary
import gen
import mc
import nearby
import peg
from c_parse import JUDGED
from c_sets import undbg

PROPS = ["C11"]
CASES = {"quick": 700, "thorough": 15000}
THREADS = 8


class Cases:
    def __init__(self, seed, dic):
        self.g = gen.Gen("%s/C11" % seed, dic)
        self.r = self.g.rng

    def changed(self, rules, al):
        """the same names, something else"""
        r = self.r
        out = dict(rules)
        n = r.choice(sorted(out))
        out[n] = r.choice([lambda: peg.lit([r.choice(al)]), lambda: peg.alt(out[n], peg.lit([r.choice(al)])), lambda: peg.rep(out[n], 0, 1),
                           lambda: peg.seq(out[n], peg.rep(peg.lit([r.choice(al)]))), lambda: undbg(self.g.expr(2, sorted(out), al, {}, []))])()
        return out

    def extra(self, rules, al):
        r = self.r
        used = set(rules) | {e["n"] for e in peg.all_exprs(rules) if e["k"] == "ref"}
        pool = [n for n in ["main2", "mai", "Main", "zz", "r", "x", "EOF", "_", "", "aa", "main.x", "\u00e9", "r11"] if n not in used]
        if r.random() < .3:
            pool = []
        pool = list(dict.fromkeys(pool + [n for n in (nearby.near(r, r.choice(sorted(used))) for _ in range(12)) if n not in used]))
        #  names much like those referred to, above all those missing
        missing = sorted(used - set(rules))
        if missing:
            m = r.choice(missing)
            like = [m.upper(), m.lower(), m.title(), m.swapcase(), m + " ", " " + m, m.strip(), m.strip("."), m.strip("'\"_"), m[:-1], m[1:], m + m[-1:], "." + m, "m." + m, m + ".x",
                    m.split(".")[-1], "r:" + m, m + "'", m.replace("_", "-")]
            like = [n for n in dict.fromkeys(like + [nearby.near(r, m) for _ in range(6)]) if n not in used]
            pool += r.sample(like, r.randint(1, len(like)))
            names = set(r.sample(like, min(len(like), r.choice([1, 4, 12]))))
        else:
            names = set()
        names = sorted(names | set(r.sample(pool, r.randint(min(1, len(pool)), min(6, len(pool))))))
        return [[n, r.choice([peg.ref(n), peg.err("no"), peg.lit(""), peg.rep(peg.dot()), peg.ref("main"), undbg(self.g.expr(2, names + ["main"], al, {}, []))])] for n in names]

    def one(self, i):
        r = self.r
        shape = r.choices(["rand", "shape", "counted", "empties", "locations", "aborts", "nested", "gone"], [6, 2, 1, 1, 1.5, 2, .5, 1])[0]
        if shape == "rand" or shape == "aborts":
            al = self.g.alphabet(r.choice(["ab", "ab", "ascii", "uni", "lines"]))
            rules = self.g.rules(al, {} if shape == "rand" else {"err": 0.15, "missing": 0.15, "ref": 0.4})
            texts = self.g.texts(rules, al, r.choice([2, 3, 5]))
        elif shape == "gone":
            #  a rule that is not there, reached
            al = self.g.alphabet("ab")
            name = r.choice(["Foo", "foo", "a_b", "m.x", ".top", "expr'", "BAR", "item", "nu m", "\u00c9t\u00e9", nearby.near(r, "Rule")]) or "X"
            gone = peg.ref(name)
            rules = {"main": r.choice([gone, peg.seq(peg.lit([r.choice(al)]), gone), peg.alt(peg.lit([al[0]]), gone), peg.rep(peg.seq(peg.rep(gone, 0, 1), peg.dot())), peg.seq(peg.ref("main2"), gone),
                                       peg.alt(peg.seq(peg.neg(gone), peg.dot()), gone)]), "main2": peg.rep(peg.lit([al[-1]]), 0, 1)}
            if name in rules:
                rules.pop(name)
            if "main" not in rules:
                return None
            texts = self.g.texts(rules, al, 3)
        elif shape == "shape":
            rules, al = r.choice([self.g.arithmetic, self.g.csvlike, self.g.comments])()
            texts = self.g.texts(rules, al, 3, 15, 8)
        else:
            rules, t = getattr(self.g, shape)()
            al = sorted(set(t))[:4] or peg.cp("a")
            texts = [t] + [self.g.damage(t, al) for _ in range(r.choice([1, 2]))]
        sets = [rules] + [self.changed(rules, al) for _ in range(r.choice([0, 1, 1, 2]))]
        if r.random() < .5:
            #  lines of other lengths
            t = list(r.choice(texts))
            for _ in range(r.choice([1, 2, 4])):
                t.insert(r.randint(0, len(t)), r.choice([10, 10, 10, 13]))
            texts = texts + [t]
            if 10 in t:
                at = t.index(10)
                texts.append(t[:at] + t[:1] + t[at:])
                texts.append(t[:max(0, at - 1)] + t[at:])
        jobs = []
        for k, rs in enumerate(sets):
            for t in texts:
                e = peg.Estimate(rs, t, 2500)
                e.run()
                if not e.gave_up and len(t) < 200:
                    #  many words
                    jobs += [[k, t, d] for d in (False, True)]
        if not jobs:
            return None
        n = len(jobs)
        order = lambda m: [r.randrange(n) for _ in range(m)]
        every = lambda: r.sample(range(n), n)
        runs = [{"how": "seq", "order": every()}, {"how": "fresh", "order": every()}, {"how": "seq", "order": order(min(n, 8))},
                {"how": "extra", "order": [x for x in every() if jobs[x][0] == 0], "extra": self.extra(rules, al)},
                {"how": "threads", "order": every(), "n": THREADS}, {"how": "place", "order": every() + order(n)}, {"how": "seq", "order": every()}]
        head, tail = runs[0], runs[1:]
        r.shuffle(tail)
        return {"id": "p-%d" % i, "sets": [{"rules": [[k, undbg(v)] for k, v in rs.items()]} for rs in sets], "jobs": jobs, "runs": [head] + tail}


def often(g, i):
    """a few short parses, a hundred thousand times in one process"""
    r = g.rng
    al = g.alphabet("ab")
    a, b = peg.lit(al[:1]), peg.lit(al[1:2])
    rules = [lambda: {"main": peg.alt(peg.seq(peg.ref("r1"), b), peg.ref("r1")), "r1": peg.alt(a, peg.seq(b, peg.ref("main")))},
             lambda: {"main": peg.seq(peg.rep(peg.ref("r1"), 0, 3), peg.eof()), "r1": peg.seq(peg.neg(b), peg.dot())},
             lambda: {"main": peg.alt(peg.ref("main"), a)}, lambda: {"main": peg.seq(a, peg.alt(peg.ref("gone"), b))},
             lambda: {"main": peg.alt(peg.seq(a, peg.err("no")), b)},
             lambda: g.rules(al, {"err": .1, "missing": .1, "ref": .5}, depth=1)][i % 6]()
    texts = [[], al[:1], al[:2], al[1:2] + al[:1]]
    jobs, used = [], 0
    for t in texts:
        e = peg.Estimate(rules, t, 60)
        e.run()
        if not e.gave_up:
            jobs += [[0, t, d] for d in (False, True)]
            used += 2 * e.used + 4
    if not jobs:
        return often(g, i + 1)
    every = list(range(len(jobs)))
    return {"id": "often-%d" % i, "sets": [{"rules": [[k, undbg(v)] for k, v in rules.items()]}], "jobs": jobs,
            "runs": [{"how": "seq", "order": every}, {"how": "many", "order": every, "n": 4000000 // used}, {"how": "seq", "order": every}]}


def request(c, threads):
    return {"op": "pure", "sets": c["sets"], "jobs": c["jobs"], "runs": [x for x in c["runs"] if threads or x["how"] != "threads"]}


def build(run):
    """with threads, if rule sets can be shared by threads at all"""
    exe = core.build_harness()
    try:
        return core.build_harness(["threads"]), True
    except core.ToolError as x:
        run.violation("a rule set cannot be shared by threads any more: %s" % str(x)[:1500], {"build": "threads", "log": str(x)})
        return exe, False


def again(c):
    """the same jobs, for another process: the last first"""
    n = len(c["jobs"])
    return dict(c, runs=[{"how": "process", "order": list(reversed(range(n)))}])


def validate(run, exe, cases, threads):
    first = core.run_harness(exe, [request(c, threads) for c in cases], run.work, "cases", timeout_ms=60000, shards=4)
    req = [dict(request(again(c), False), runs=[{"how": "seq", "order": list(reversed(range(len(c["jobs"]))))}]) for c in cases]
    #  the cases the other way round, in other processes
    other = list(reversed(core.run_harness(exe, list(reversed(req)), run.work, "again", shards=3)))
    rows, hows = [], {}
    for c, a, b in zip(cases, first, other):
        if "skipped" in (a.get("bad"), b.get("bad")):
            continue
        if "bad" in a or "bad" in b:
            bad = a.get("bad") or b.get("bad")
            if "bad" in a and "bad" in b:
                #  not answering is the same every time, and up to C07
                continue
            run.violation("parsing the same again: the code did not answer once: %s" % bad, {"case": c, "answer": [a.get("bad"), b.get("bad")]})
            continue
        ev = a["events"] + [dict(e, how="process") for e in b["events"]]
        for e in ev:
            hows[e["how"]] = hows.get(e["how"], 0) + 1
        rows.append({"id": c["id"], "events": squeeze(ev), "unchanged": a["unchanged"] and b["unchanged"]})
    by = {c["id"]: c for c in cases}
    n = 0
    for i in range(0, len(rows), 2000):
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, rows[i:i + 2000])
        r = core.tlc("TracePure", env={"TRACE": p}, timeout=1500, xmx="12g")
        got = JUDGED.findall(r.text)
        if not r.clean or len(got) != len(rows[i:i + 2000]):
            raise core.ToolError("TLC judged %d of %d cases:\n%s" % (len(got), len(rows), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        ev = {x["id"]: x["events"] for x in rows[i:i + 2000]}
        for _, k, at, how, _, broken in got:
            n += int(at)
            if broken != "{}":
                e = ev[k][int(at) - 1]
                job = by[k]["jobs"][e["job"]]
                run.violation("parsing %r again (%s) gives another answer, or changes the rules (%s): %s" % (
                    "".join(map(chr, job[1])), how, broken, json.dumps(e["res"])[:300]), {"case": by[k], "at": int(at), "events": ev[k]})
    run.traces += len(rows)
    run.detail["validated"] = {"cases": len(rows), "jobs": sum(len(c["jobs"]) for c in cases), "events": hows, "events_judged": n, "threads": THREADS if threads else 0}
    run.log("validated", len(rows), hows)


def squeeze(ev):
    """eight threads that give the same need to be judged once: an event that repeats the
    answer and the circumstances of an earlier one says nothing more"""
    seen, out = set(), []
    for e in ev:
        k = json.dumps([e["job"], e["how"], e["res"]], sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def check(run):
    exe, threads = build(run)
    mc.check(run, "MCPure", "C11", timeout=3000)
    g = Cases(run.seed, dictionary.mine(core.REPO))
    cases = []
    i = 0
    while len(cases) < CASES[run.tier]:
        c = g.one(i)
        i += 1
        if c:
            cases.append(c)
    cases += [often(g.g, i) for i in range(run.pick(12, 60))]
    run.sample({"case validated": cases[3]})
    run.log("generated", len(cases))
    validate(run, exe, cases, threads)
