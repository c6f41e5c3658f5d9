"""C26: the errors of the grammar reader keep and print all that was said.

1. TLC checks every short history of putting descriptions on errors of every kind
   (spec/MCErrors.tla) and prints what every step shows; the code does the same.
2. Longer random histories, on errors made of anything and on those of grammar texts
   that are refused, are run on the code and validated (spec/TraceErrors.tla)."""
import json

import core
import dictionary
import gen
import mc
import nearby
import peg
from c_parse import JUDGED

PROPS = ["C26"]
CASES = {"quick": 8000, "thorough": 80000}


def real(b):
    """what stands for an error of the parser in the model, as one"""
    if b["k"] == "parser":
        return {"k": "parser", "e": {"n": 3, "row": 1, "col": 2, "sl": 1, "d": b["e"], "lb": b["e"], "la": [], "prio": "critical", "walk": []}}
    return {k: v for k, v in b.items() if k != "dbg"}


def replay(run, exe, behaviours):
    ans = core.run_harness(exe, [{"op": "errs", "base": real(b["base"]), "steps": b["steps"]} for b in behaviours], run.work, "replay", shards=8)
    n = 0
    for b, a in zip(behaviours, ans):
        if a.get("bad") == "skipped":
            continue
        n += 1
        wrong = None
        if "bad" in a:
            wrong = "the code did not answer: %s" % a["bad"]
        else:
            over = [s["d"] for s in b["steps"]]
            got = [a["begun"]] + a["steps"]
            stands = b["base"].get("dbg")
            for i, (g, x) in enumerate(zip(got, b["shows"])):
                if stands is not None:
                    #  the form it stands for ends what is printed, but for the bracket
                    x = x[:len(x) - 1 - len(stands)] + g["base"].get("dbg", []) + x[-1:]
                base = {k: v for k, v in g["base"].items() if k not in ("dbg",)}
                want = real(b["base"])
                if base.get("k") == "parser":
                    base = {"k": "parser", "e": {k: v for k, v in base["e"].items() if k != "k"}}
                if g["over"] != list(reversed(over[:i])) or base != want or g["print"] != x:
                    wrong = "after %d steps it is %s, printed %r, not %r" % (i, json.dumps(g)[:400], "".join(map(chr, g["print"])), "".join(map(chr, x)))
                    break
        if wrong:
            run.violation("descriptions put on %s: %s" % (json.dumps(b["base"]), wrong), {"history": b, "answer": a})
    run.traces += n
    run.detail["replayed"] = n


class Histories:
    def __init__(self, seed, dic):
        self.g = gen.Gen("%s/C26" % seed, dic)
        self.r = self.g.rng

    def text(self):
        r = self.r
        al = self.g.alphabet(r.choice(["ab", "ascii", "uni", "lines"]))
        return r.choice([lambda: [], lambda: peg.cp(r.choice(["consuming main", "n:atom", " > ", ">", "a > b", "Parser(", "AST(", ")", "x)", "error", "", " ", "\n", "\"", "{}", "{:?}", "%s", "or:", "a" * 300])),
                         lambda: peg.cp(nearby.near(r, nearby.near(r, r.choice([" > ", "a > b", "Parser(", "AST(", "error:", "consuming main", "n:atom", "x", ", "])))),
                        lambda: [r.choice(al) for _ in range(r.randint(1, 8))]])()

    def base(self):
        r = self.r
        k = r.choice(["peg", "parser", "ast", "read"])
        if k == "peg":
            return {"k": k, "d": self.text()}
        if k == "ast":
            return {"k": k, "d": self.text(), "c": [] if r.random() < .5 else [self.text()]}
        if k == "parser":
            num = lambda: r.choice([0, 1, 2, 7, 4096, 2 ** 31 - 1])
            return {"k": k, "e": {"n": num(), "row": num(), "col": num(), "sl": num(), "d": self.text(), "lb": self.text(), "la": self.text(), "prio": r.choice(["critical", "normal"]),
                                  "walk": [r.choice(["r:main", "r:a", "", "r:\u00e9"]) for _ in range(r.choice([0, 0, 1, 3]))]}}
        good = "main = 'a' b / (c)*\nb = [a-z0]\nm { x = \"\\n\" }\n"
        t = good[:r.randint(0, len(good))]
        if r.random() < .6:
            i = r.randint(0, len(t))
            t = t[:i] + r.choice(["(", "=", "'", "\u00e9", "\n\n", "!", "]", "\t"]) + t[i:]
        return {"k": k, "text": peg.cp(t)}

    def one(self):
        r = self.r
        steps, said = [], []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20])):
            d = r.choice(said) if said and r.random() < .25 else self.text()
            said.append(d)
            steps.append({"a": r.choice(["push", "push", "wrap"]), "d": d})
        if r.random() < .006:
            #  much is said
            few = [peg.cp(x) for x in r.sample(["a", "b", "", ">", " > ", "\u00e9", "in it"], 3)]
            steps = [{"a": r.choice(["push", "wrap"]), "d": r.choice(few)} for _ in range(r.choice([31, 33, 63, 65, 100, 129, 200]))]
        return {"base": self.base(), "steps": steps}


def validate(run, exe, cases):
    ans = core.run_harness(exe, [dict(c, op="errs") for c in cases], run.work, "cases", shards=8)
    rows, kinds = [], {}
    for n, (c, a) in enumerate(zip(cases, ans)):
        if a.get("bad") == "skipped":
            continue
        if "bad" in a:
            run.violation("an error given %s: the code did not answer: %s" % (json.dumps(c)[:400], a["bad"]), dict(c, answer=a))
            continue
        if a["begun"] is None:
            continue
        b = c["base"]
        if b["k"] == "read":
            #  what it is, TraceFront says
            base = a["begun"]["base"]
        elif b["k"] == "parser":
            base = {"k": "parser", "e": dict(b["e"], k="err"), "dbg": a["begun"]["base"].get("dbg", [])}
        else:
            base = dict(b)
            if b["k"] == "ast":
                base["dbg"] = a["begun"]["base"].get("dbg", [])
        kinds[b["k"]] = kinds.get(b["k"], 0) + 1
        rows.append({"id": "e-%d" % n, "base": base, "begun": a["begun"], "steps": [dict(s, shown=x) for s, x in zip(c["steps"], a["steps"])]})
    by = {c["id"]: c for c in rows}
    steps = 0
    for i in range(0, len(rows), 5000):
        part = rows[i:i + 5000]
        p = "%s/trace.ndjson" % run.work
        core.write_nd(p, part)
        r = core.tlc("TraceErrors", env={"TRACE": p}, timeout=1500, xmx="12g")
        got = JUDGED.findall(r.text)
        if not r.clean or len(got) != len(part):
            raise core.ToolError("TLC judged %d of %d histories:\n%s" % (len(got), len(part), r.text[-3000:]))
        run.states += r.distinct
        run.transitions += r.generated
        for _, k, n, kind, _, broken in got:
            steps += int(n)
            if broken != "{}":
                c = by[k]
                s = c["steps"][int(n) - 1]["shown"] if int(n) else c["begun"]
                run.violation("an error (%s) with %s descriptions put on it: not as specified: %s" % (c["base"]["k"], n, json.dumps(s)[:400]), c)
    run.traces += len(rows)
    run.detail["validated"] = {"histories": len(rows), "steps": steps, "kinds": kinds}
    run.log("validated", len(rows), kinds)


def check(run):
    exe = core.build_harness()
    behaviours = mc.check(run, "MCErrors", "C26", timeout=3000)
    run.sample({"history replayed": behaviours[len(behaviours) // 2]})
    replay(run, exe, behaviours)
    h = Histories(run.seed, dictionary.mine(core.REPO))
    cases = [h.one() for _ in range(CASES[run.tier])]
    run.sample({"history validated": cases[7]})
    validate(run, exe, cases)
