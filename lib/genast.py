"""Random trees and what is done with them."""
import random

import nearby
from nearby import near

POOL = ["a", "aa", "A", "a.b", "b", "", "\u00e9", "ab", "main", "a ", "x", "EOF", "Val", "a.b.c", "r1", "r10", "\U0001d54f"]
VALS = ["", "x", "y", "xy", " ", "\n", "a", "main", "\u00e9", "\U0001f600", "(", "0", "aa", "EOF", "\u0301", "\r\n"]


def codes(t):
    return [ord(c) for c in t]


def val(t):
    return {"t": "v", "s": codes(t)}


def rule(n, cs):
    return {"t": "r", "n": n, "c": cs}


EOF = {"t": "e"}


def leaf(rng, peof=0.15):
    return dict(EOF) if rng.random() < peof else val(rng.choice(VALS) if rng.random() < 0.9 else near(rng, rng.choice(VALS)))


def some_names(rng):
    """few names, sometimes much like each other"""
    if rng.random() < 0.6:
        return rng.sample(POOL, rng.randint(1, 5))
    if rng.random() < 0.05:
        return list(nearby.longs(rng))
    return nearby.crowd(rng, rng.choice(POOL), rng.randint(2, 5))


def tree(rng, names, depth, width, pleaf=0.4, peof=0.15):
    """a rule node of at most this depth"""
    cs = []
    for _ in range(rng.randint(0, width)):
        if depth <= 1 or rng.random() < pleaf:
            cs.append(leaf(rng, peof))
        else:
            cs.append(tree(rng, names, rng.choice([depth - 1, max(1, depth - 2)]), width, pleaf, peof))
    return rule(rng.choice(names), cs)


def deep(rng, names, depth):
    """a spine, with things before and after it"""
    t = rule(rng.choice(names), [leaf(rng) for _ in range(rng.randint(0, 3))])
    for _ in range(depth - 1):
        pre = [leaf(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
        post = [leaf(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < 0.15:
            post.append(rule(rng.choice(names), [leaf(rng)]))
        t = rule(rng.choice(names), pre + [t] + post)
    return t


def wide(rng, names, n):
    out, i = [], 0
    while i < n:
        k = rng.choice([1, 1, 2, 3, 7, 30, 64])
        what = rng.choice(["v", "v", "e", "r", "rr"])
        for _ in range(k):
            out.append(val(rng.choice(VALS)) if what == "v" else dict(EOF) if what == "e"
                       else rule(rng.choice(names), [leaf(rng) for _ in range(rng.randint(0, 2))] if what == "rr" else []))
        i += k
    return rule(rng.choice(names), out)


def runs(rng, names, depth):
    """levels made of runs of values between other things"""
    cs = []
    for _ in range(rng.randint(1, 4)):
        cs += [val(rng.choice(VALS)) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
        cs += [rng.choice([dict(EOF), rule(rng.choice(names), [])]) if depth <= 1 or rng.random() < 0.4 else runs(rng, names, depth - 1)]
    if rng.random() < 0.5:
        cs += [val(rng.choice(VALS)) for _ in range(rng.choice([1, 2, 3]))]
    return rule(rng.choice(names), cs)


def nested_same(rng, names, depth):
    """names again under themselves"""
    n = rng.choice(names)
    if depth <= 1:
        return rule(n, [leaf(rng)])
    return rule(n, [x for _ in range(rng.randint(1, 2)) for x in (leaf(rng), nested_same(rng, [n, rng.choice(names)], depth - 1))][: rng.randint(1, 4)])


def some_tree(rng, big):
    names = some_names(rng)
    k = rng.random()
    if k < 0.05:
        return leaf(rng, 0.4)
    if k < 0.35:
        return tree(rng, names, rng.randint(1, 5), rng.randint(1, 5))
    if k < 0.5:
        return tree(rng, names, rng.randint(2, 4), 4, pleaf=0.15)
    if k < 0.7:
        return runs(rng, names, rng.randint(1, 3))
    if k < 0.85:
        return nested_same(rng, names, rng.randint(2, 6))
    if k < 0.93:
        return deep(rng, names, rng.choice([6, 12, 25] + ([60, 110] if big else [])))
    return wide(rng, names, rng.choice([20, 40] + ([120, 300] if big else [])))


def names_of(t, out=None):
    out = set() if out is None else out
    if t["t"] == "r":
        out.add(t["n"])
        for c in t["c"]:
            names_of(c, out)
    return out


def name_list(rng, t):
    have = sorted(names_of(t)) or ["a"]
    out = rng.sample(have, rng.randint(0, len(have)))
    for _ in range(rng.choice([0, 0, 1, 2])):
        out.append(near(rng, rng.choice(have)))
    if out and rng.random() < 0.2:
        out.append(rng.choice(out))
    rng.shuffle(out)
    return out


FUN = {"C19": "prune", "C20": "pass", "C21": "compact", "C22": "flatten"}


def chain(rng, prop, t):
    f = FUN[prop]
    n = rng.choice([1, 1, 2, 3, 5])
    fs = [f if rng.random() < 0.7 else rng.choice(list(FUN.values())) for _ in range(n)]
    if f not in fs:
        fs.append(f)
    return [{"f": x, "names": name_list(rng, t) if x in ("prune", "pass") else []} for x in fs]


def ast_cases(prop, seed, n, trees=()):
    rng = random.Random("%s/%s/ast" % (seed, prop))
    out = []
    for i in range(n):
        if trees and rng.random() < 0.2:
            t = rng.choice(trees)
        else:
            t = some_tree(rng, rng.random() < 0.1)
        out.append({"id": "%s-%d" % (prop, i), "tree": t, "steps": chain(rng, prop, t)})
    return out


# ---- walks
TREE_OPS = ["consume_val", "consume_this_value", "consume_rule", "split_first", "peek", "check_empty", "unique_val", "node_val", "node_name"]
FLAT_OPS = ["consume_val", "consume_this_value", "begin", "end", "split_first", "peek", "node_val", "node_name"]


def flat(t, out):
    if t["t"] == "r":
        out.append({"t": "b", "n": t["n"]})
        for c in t["c"]:
            flat(c, out)
        out.append({"t": "x", "n": t["n"]})
    else:
        out.append(t)
    return out


def flat_list(rng):
    k = rng.random()
    if k < 0.5:
        return [x for x in flat(some_tree(rng, rng.random() < 0.05), []) if x["t"] != "e" or rng.random() < 0.3]
    names = some_names(rng)[:3]
    return [rng.choice([{"t": "b", "n": rng.choice(names)}, {"t": "x", "n": rng.choice(names)}, leaf(rng)]) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9]))]


def tree_list(rng):
    k = rng.random()
    if k < 0.1:
        return []
    if k < 0.3:
        return [leaf(rng, 0.2)] + ([leaf(rng)] if rng.random() < 0.3 else [])
    t = some_tree(rng, rng.random() < 0.05)
    if t["t"] == "r" and rng.random() < 0.6:
        return t["c"]
    return [t] + ([leaf(rng)] if rng.random() < 0.3 else [])


def nearv(rng, v):
    """values easily taken for this one"""
    return codes(near(rng, "".join(map(chr, v))))


def confusions(op):
    """every edge of a name or value, there and not"""
    for a in ("a", "main"):
        for e in nearby.SPACE + nearby.EDGE:
            for b in (a + e, e + a, e + a + e):
                for k in (["v", "b", "x"] if op == "flat" else ["v", "r"]):
                    yield k, a, b
                    yield k, b, a


def confused(rng, op, given=None):
    """one node, and one much like it asked for"""
    a = rng.choice(POOL if rng.random() < 0.5 else VALS)
    b = near(rng, a)
    if rng.random() < 0.03:
        a, b = nearby.longs(rng)
    if rng.random() < 0.5:
        a, b = b, a
    k = rng.choice(["v", "b", "x"] if op == "flat" else ["v", "r"])
    if given:
        k, a, b = given
    nd = val(a) if k == "v" else {"t": k, "n": a} if op == "flat" else rule(a, [leaf(rng)])
    o = {"v": "consume_this_value", "b": "begin", "x": "end", "r": "consume_rule"}[k]
    ws = [nd] + [leaf(rng) for _ in range(rng.choice([0, 0, 1]))]
    return ws, [{"op": o, "a": codes(b) if k == "v" else b, "enter": False}, {"op": o, "a": codes(a) if k == "v" else a, "enter": False}]


def walk(rng, ws, op):
    """steps most of which succeed"""
    steps, cur = [], ws
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 20])):
        first = cur[0] if cur else None
        good = {"v": ["consume_val", "consume_this_value", "node_val"], "r": ["consume_rule", "node_name"], "b": ["begin", "node_name"],
                "x": ["end", "node_name"], "e": ["split_first", "peek"]}[first["t"]] if first else ["check_empty"]
        o = rng.choice(good) if rng.random() < 0.65 else rng.choice(FLAT_OPS if op == "flat" else TREE_OPS)
        if op == "flat" and o not in FLAT_OPS:
            o = "peek"
        ok = rng.random() < 0.75
        if o in ("consume_rule", "begin", "end"):
            n = first["n"] if first and "n" in first else rng.choice(POOL)
            a = n if ok else near(rng, n)
        elif o == "consume_this_value":
            v = first["s"] if first and "s" in first else codes(first["n"]) if first and "n" in first else codes(rng.choice(VALS))
            a = v if ok else nearv(rng, v)
        else:
            a = []
        enter = op == "tree" and o == "consume_rule" and rng.random() < 0.6
        steps.append({"op": o, "a": a, "enter": enter})
        #  where the walk probably is now; only to choose what comes next
        if first and o in ("consume_val", "consume_this_value", "split_first", "consume_rule", "begin", "end"):
            kind = {"consume_val": "v", "consume_this_value": "v", "consume_rule": "r", "begin": "b", "end": "x"}.get(o, first["t"])
            if first["t"] == kind and (a == [] or a == first.get("n") or a == first.get("s")):
                cur = first["c"] if enter else cur[1:]
    return steps


def walk_cases(prop, seed, n, op):
    rng = random.Random("%s/%s/walk" % (seed, prop))
    out = []
    for i, g in enumerate(confusions(op)):
        ws, steps = confused(rng, op, g)
        out.append({"id": "%s-e%d" % (prop, i), "nodes": ws, "steps": steps})
    for i in range(n):
        ws = flat_list(rng) if op == "flat" else tree_list(rng)
        if len(ws) > 40 and rng.random() < 0.8:
            ws = ws[:rng.randint(0, 40)]
        steps = walk(rng, ws, op)
        if i % 3 == 0:
            ws, steps = confused(rng, op)
        out.append({"id": "%s-%d" % (prop, i), "nodes": ws, "steps": steps})
    return out
