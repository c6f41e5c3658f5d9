"""Random inputs with a part to repeat any number of times.  Whether what comes out of
them grows regularly is found out by the specification; here it is only made likely, and
the counts are chosen so that the code needs little time."""
import random

from gen import Gen
from genfront import UNI
from peg import INF, Estimate, Sampler, alt, cp, dot, eof, err, lit, neg, ref, rep, seq, size, valid, walk

SMALL = list(range(8, 18))


def grown(e, k):
    if e["k"] == "lit" and e.get("grow"):
        return lit(e["s"] * k)
    e = dict(e)
    if "e" in e:
        e["e"] = grown(e["e"], k)
    if "es" in e:
        e["es"] = [grown(x, k) for x in e["es"]]
    if e["k"] == "rep" and e.pop("grow", False):
        e["lo"] *= k
        e["hi"] = e["hi"] * k if e["hi"] != INF else INF
    return e


def sampled(r, rules, e, al, budget, maxrep=3):
    s = Sampler(r, rules, al, budget, maxrep)
    s.go(e, 0)
    return [valid(c) for c in s.out]


def parse_case(g, shapes):
    r = g.rng
    al = g.alphabet(r.choice(shapes))
    w = {"plain": 1, "leftrec": 0, "missing": 0.02, "long": 0, "err": 0.02, "ref": 0.5}
    names = ["r1", "b", "x.y", "q'"][:r.randint(0, 3)]
    rules = {nm: g.expr(r.choice([1, 1, 2]), names[i + 1:], al, w, names[i + 1:]) for i, nm in enumerate(names)}
    x = g.expr(r.choice([1, 2, 2, 3]), names, al, w, names)
    if r.random() < 0.5:
        x = seq(x, lit(r.choice([[10], [10], [13, 10], [13], [9]])))
    a = g.expr(r.choice([0, 1]), names, al, w, names)
    b = g.expr(r.choice([0, 1, 2]), names, al, w, names)
    if names and r.random() < 0.5:
        rules[names[0] + "2"] = x
        x = ref(names[0] + "2")
    many = rep(x, r.choice([0, 0, 1]))
    y = r.random()
    pre, post = [], []
    if y < 0.15:
        main = many
    elif y < 0.3:
        main = seq(a, many, b)
    elif y < 0.4:
        main = alt(seq(many, b), rep(a))
    elif y < 0.47:
        main = seq(neg(seq(many, b)), rep(dot()))
    elif y < 0.54:
        main = seq(rep(seq(neg(a), x)), b, eof())
    elif y < 0.6:
        main = seq(neg(neg(many)), rep(dot()), b)
    elif y < 0.7:
        main = seq(dict(lit(sampled(r, rules, x, al, 8) or al[:1]), grow=True), b)
    elif y < 0.78:
        u = sampled(r, rules, x, al, 8) or al[:1]
        main = alt(seq(dict(lit(u), grow=True), b), seq(rep(x), b))
    elif y < 0.9:
        lo, hi = r.choice([(1, 1), (1, 2), (0, 1), (1, INF), (2, 2), (2, INF), (0, 2)])
        main = seq(dict(rep(x, lo, hi), grow=True), b)
    else:
        main = seq(rep(seq(x, rep(a, 0, 1))), alt(b, err("no")))
    rules["main"] = main
    if r.random() < 0.4:
        pre = sampled(r, rules, a, al, 6)
    unit = sampled(r, rules, x, al, 10)
    #  what a repetition would take: another of the units a literal that grows is made of
    l = next((e for e in walk(main) if e["k"] == "lit" and e.get("grow")), None)
    if l:
        unit, pre = list(l["s"]), pre if r.random() < 0.2 else []
    post = sampled(r, rules, b, al, 8)
    z = r.random()
    if z < 0.25:
        post = g.damage(post, al)
    elif z < 0.35:
        post = []
    elif z < 0.45:
        unit = g.damage(unit, al)
    return {"what": "parse", "rules": rules, "pre": pre, "unit": unit, "post": post}


def work(c, k):
    rules = {n: grown(e, k) for n, e in c["rules"].items()}
    e = Estimate(rules, c["pre"] + c["unit"] * k + c["post"], 6000)
    res = e.run()
    return None if e.gave_up else e.used


def most(c, per, longest):
    """how often the unit can be repeated: U expressions tried for each of them, which copy the line"""
    u = len(c["unit"])
    k = 70000 // u
    line = lambda k: u if 10 in c["unit"] else u * k
    while k > 10 and (per * k * (200 + line(k)) > 150000000 or k * u > longest):
        k = k * 9 // 10
    return k


def far_case(g):
    """more than 65536 characters or lines, then something else; what costs little"""
    r = g.rng
    a, b = r.sample([97, 98, 65, 46, 0xE9, 0x4E2D, 0x1F600], 2)
    #  a place and the one 65536 before are at the same place of a unit
    unit = r.choice([[10], [10], [a, 10], [10, a], [a, a, a, 10], [13, 10], [a, 13, 13, 10]])
    word = r.choice([[b], [b, b], [b, 10], [a, b]])
    rules = {"b": r.choice([lit(word), seq(lit(word[:1]), *[lit([x]) for x in word[1:]]), alt(lit([33]), lit(word))])}
    one = r.choice([lit(unit), dot(), seq(*[lit([x]) for x in unit])])
    if one["k"] == "dot":
        rules["x"] = dot()
        one = ref("x")
    sort = r.randrange(5)
    main = [lambda: seq(rep(alt(ref("b"), one)), eof()), lambda: seq(rep(seq(neg(ref("b")), one)), ref("b")), lambda: seq(rep(lit(unit)), ref("b"), eof()),
            lambda: alt(seq(rep(lit(unit)), ref("b")), rep(dot())), lambda: seq(rep(alt(lit(unit), ref("b"))), neg(dot()))][sort]()
    post = r.choice([word, word, word + [a], [a], [], word + word[:1], [a] + word])
    rules["main"] = main
    return {"what": "parse", "rules": rules, "pre": r.choice([[], [], [], word, [10]]), "unit": unit, "post": post}


FAR = {"C01": 8, "C02": 3, "C03": 4, "C04": 8, "C05": 5, "C07": 3, "C08": 2, "C09": 3}


def parse_cases(prop, seed, count, dic):
    g = Gen("pump/far/%s/%s" % (prop, seed), dic)
    out = []
    while len(out) < FAR.get(prop, 0) * (1 if count < 1000 else 10):
        c = far_case(g)
        w = [work(c, k) for k in (10, 20, 30)]
        if None in w or w[2] - w[1] != w[1] - w[0] or w[2] == w[0]:
            continue
        k = most(c, max(1, (w[1] - w[0]) // 10), 70000)
        if k * len(c["unit"]) < 66000:
            continue
        c["at"] = SMALL + [k, 65536 // len(c["unit"]) + g.rng.choice([-1, 0, 1, 2])]
        c["dat"] = SMALL + [min(k, 250)] if prop in ("C04", "C07", "C09") else []
        c["id"] = "far%d" % len(out)
        out.append(c)
    return out + near_cases(prop, seed, count, dic)


def near_cases(prop, seed, count, dic):
    g = Gen("pump/%s/%s" % (prop, seed), dic)
    shapes = {"C03": ["uni", "uni", "any", "lines"], "C04": ["lines", "lines", "uni", "ab"]}.get(prop, ["ab", "lines", "ascii", "uni"])
    out = []
    while len(out) < count:
        c = parse_case(g, shapes)
        if not c["unit"] or len(c["unit"]) > 24 or len(c["pre"]) + len(c["post"]) > 60 or size(c["rules"]) > 60:
            continue
        if prop == "C08" and not any(e.get("grow") and e["k"] == "rep" for e in c["rules"]["main"].get("es", [])) and g.rng.random() < 0.8:
            continue
        w = [work(c, k) for k in (10, 20, 30)]
        if None in w or w[2] - w[1] != w[1] - w[0]:
            continue
        per = max(1, (w[1] - w[0]) // 10)
        #  counting is much of nothing
        if w[2] == w[0] and g.rng.random() < 0.8:
            continue
        k = most(c, per, 70000)
        if k < 300:
            continue
        c["at"] = SMALL + [k, k // 2 + 1]
        c["dat"] = SMALL + [min(k, 250)] if prop in ("C04", "C07", "C09") else []
        c["id"] = "p%d" % len(out)
        out.append(c)
    return out


# ---- grammar texts
PEG = {
    "C12": [("a = 'x", "y", "' 'z'\n"), ("", "a = ('x' / [0-9])* !.\n", "b = a+ / 'z'\n"), ("main = b\n", "b = ('x' / [0-9])*\n", ""), ("", "a = !b? c+\n", "")],
    "C13": [("a = '", "%", "'\n"), ("a = \"", "%", "\"\n"), ("a = \"", "\\n", "\"\n"), ("a = \"", "\\0x4F", "\"\n"), ("a = \"x", "\\\\", "\"\n"),
            ("a = \"", "\\\"", "z\"\n"), ("a = [", "%", "]\n"), ("a = [x", "%-%", "]\n"), ("a = [", "a-z", "]\n"), ("a = error('", "%", "')\n"),
            ("a = error(\"", "\\t%", "\")\n"), ("a = \"", "\\", "n\"\n"), ("a = '", "\\", "'\n")],
    "C14": [("a = 'x'", " ", "\n"), ("a =", " ", "'x'\n"), ("", "\n", "a = 'x'\n"), ("a = 'x'\n", "\r\n", ""), ("a", "\r", "= 'x'\n"),
            ("a = 'x' //", "%", "\n"), ("a = 'x' /*", "%", "*/\n"), ("a = 'x' /*", "*", "/\n"), ("a = /*", " /", "*/ 'x'\n"),
            ("a = 'x'\n", "// %\n", "b = 'y'\n"), ("a = 'x' ", "/*%*/", "\n"), ("a = 'x'", "/**/ \n", " 'y'\n"), ("a = (", " \n", "'x'", ")\n"),
            ("m {\n", "\n", "a='x'\n}\n"), ("a = 'x' /", "\r\n", "'y'\n")],
    "C15": [("a = [", "a-z", "]\n"), ("", "a = 'x'\n", "b = 'y'\n"), ("a = \"", "\\n", "\"\n"), ("a = n", ".n", "\n"), ("a = 'x'\n", "b = 'y'\n", "c = \n"), ("a = '", "%", "\n"), ("a = [", "%", "\n"), ("a = 'x'", " ", "?"), ("a = 'x'\n", "\n", "}"),
            ("a = (", " ", "'x'\n"), ("a = 'x' /*", "%", "\n"), ("a = \"", "\\n", ""), ("", "a = 'x'\n", "m {"), ("", "a = b.c\n", "="), ("a = 'x' //", "%", ""),
            ("a = ", "b.", "\n"), ("", "\n", ""), ("", "% ", ""), ("a", "b", "\n"), ("a = ", ".", "\n"), ("a = (b", " \r", "\r c\r"), ("", "a='x'\r\n", "a=*\r\n"),
            ("a = 'x'\n", "b = 'y' // %\n", "c ="), ("a = error(", "\n", "x)\n")],
    "C16": [("", "n", " = 'x'\n"), ("", "n.", "n = 'x'\n"), ("a = ", "n", "\n"), ("a = n", ".n", "\n"), ("a = n", "'", "\n"), ("n", "\"", " = 'x'\n"),
            ("", "a = 'x'\n", "a = 'y'\n"), ("a = 'z'\n", "m {\na = 'x'\nb = 'y'\n}\n", ""), ("", "m {\na = 'x'\n}\n", "a = 'y'\n"), ("", "a = b.c\n", "b.c = 'x'\n"),
            ("m {\n", "a = 'x'\n", "}\na = 'yy'\n")],
}


def peg_cases(prop, seed, count):
    r = random.Random("pump/%s/%s" % (prop, seed))
    out = []
    pool = list(PEG[prop])
    for i in range(count):
        t = pool[i % len(pool)] if i < len(pool) else r.choice(pool)
        ch = r.choice(["a", "z", "0", " ", "*", "'" if "'" not in t[0][-1:] and "\"" in t[0] else "x", "é", r.choice(UNI), "/", "=", "{", "("])
        if "/*" in t[0] and ch in "*/":
            ch = "-"
        pre, unit, post = (cp(x.replace("%", ch)) for x in (t[0], t[1], "".join(t[2:])))
        if i >= len(pool) and r.random() < 0.4:
            pre = cp(r.choice(["k = 'k'\n", "// note\n", "\n\n", "m { a = 'q' }\n", "k = ('a' / [b-c])* !d\n"])) + pre
        out.append({"id": "g%d" % i, "what": "peg", "pre": pre, "unit": unit, "post": post,
                    "at": SMALL + [r.choice([2000, 3500, 5001])], "dat": []})
    return out


def code_cases(seed, count):
    """grammars that give much code"""
    out = []
    for p in ("C13", "C16"):
        out += [dict(c, id="%s%s" % (p, c["id"]), what="code", at=SMALL + [2000]) for c in peg_cases(p, seed, len(PEG[p]))]
    return random.Random("pump/code/%s" % seed).sample(out, min(len(out), count)) + [
        {"id": "ranges", "what": "code", "pre": cp("a = ["), "unit": cp("a-z"), "post": cp("]\n"), "at": SMALL + [20000], "dat": []}]


# ---- wide trees
def ast_cases(f, seed, count):
    r = random.Random("pump/%s/%s" % (f, seed))
    names = ["a", "b", "c"]

    def nd(d):
        x = r.random()
        if d <= 0 or x < 0.5:
            return {"t": "v", "s": [r.choice(cp("xyé\n")) for _ in range(r.choice([0, 1, 1, 2]))]} if r.random() < 0.8 else {"t": "e"}
        return {"t": "r", "n": r.choice(names), "c": [nd(d - 1) for _ in range(r.choice([0, 1, 2, 3]))]}
    out = []
    for i in range(count):
        unit = [nd(2) for _ in range(r.choice([1, 1, 2, 3]))]
        out.append({"id": "t%d" % i, "what": "ast", "f": f, "root": r.choice(names), "names": r.sample(names, r.randint(0, 2)),
                    "pre": [nd(2) for _ in range(r.randint(0, 2))], "unit": unit, "post": [nd(2) for _ in range(r.randint(0, 2))],
                    "at": SMALL + [r.choice([3000, 5000, 9001])], "dat": []})
    return out
