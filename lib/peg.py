"""Expressions as data (the same shape as in spec/PegBase.tla), a fuelled matcher
used only to size up generated cases (it judges nothing), and sentence sampling."""

INF = -1
#  counts no text comes near, by the number that stands for each of them (harness/src/conv.rs): 2^31, 2^32 - 1, 2^32,
#  2^53, 2^63 - 1, 2^63, 2^64 - 2, 2^64 - 1
HUGE = [2147483640 + i for i in range(8)]


def cp(s):
    return [ord(c) for c in s]


def lit(s): return {"k": "lit", "s": cp(s) if isinstance(s, str) else s}
def err(s): return {"k": "err", "s": cp(s) if isinstance(s, str) else s}
def dot(): return {"k": "dot"}
def eof(): return {"k": "eof"}
def cls(c, r=()): return {"k": "match", "c": cp(c) if isinstance(c, str) else c,
                          "r": [[ord(a) if isinstance(a, str) else a, ord(b) if isinstance(b, str) else b] for a, b in r]}
def seq(*es): return {"k": "and", "es": list(es)}
def alt(*es): return {"k": "or", "es": list(es)}
def neg(e): return {"k": "not", "e": e}
def rep(e, lo=0, hi=INF): return {"k": "rep", "e": e, "lo": lo, "hi": hi}
def ref(n): return {"k": "ref", "n": n}


def walk(e):
    yield e
    for x in e.get("es", []):
        yield from walk(x)
    if "e" in e:
        yield from walk(e["e"])


def all_exprs(rules):
    for e in rules.values():
        yield from walk(e)


def size(rules):
    return sum(1 for _ in all_exprs(rules))


class Fuel(Exception):
    pass


class Estimate:
    """How far the match of a text goes, counting work; gives up when it is too much."""

    def __init__(self, rules, text, fuel=4000, depth=400):
        self.r, self.t, self.fuel, self.maxd = rules, text, fuel, depth
        self.used = 0
        self.gave_up = False
        self.kinds = set()

    def run(self):
        try:
            n = self.ref("main", 0, (), 0)
        except Fuel:
            self.gave_up = True
            return None
        return n

    def tick(self, w=1):
        self.used += w
        if self.used > self.fuel:
            raise Fuel()

    def ref(self, nm, n, act, d):
        self.tick()
        if nm not in self.r or (nm, n) in act:
            self.kinds.add("abort")
            return ("abort",)
        if d > self.maxd:
            raise Fuel()
        act = tuple(a for a in act if a[1] == n) + ((nm, n),)
        return self.ev(self.r[nm], n, act, d + 1)

    def ev(self, e, n, act, d):
        self.tick()
        if d > self.maxd:
            raise Fuel()
        k, t = e["k"], self.t
        if k == "lit":
            s = e["s"]
            return n + len(s) if t[n:n + len(s)] == s else None
        if k == "dot":
            return n + 1 if n < len(t) else None
        if k == "eof":
            return n if n == len(t) else None
        if k == "err":
            return ("abort",)
        if k == "match":
            if n >= len(t):
                return None
            c = t[n]
            return n + 1 if c in e["c"] or any(a <= c <= b for a, b in e["r"]) else None
        if k == "ref":
            return self.ref(e["n"], n, act, d)
        if k == "not":
            r = self.ev(e["e"], n, act, d + 1)
            return None if isinstance(r, int) else n
        if k == "and":
            for x in e["es"]:
                r = self.ev(x, n, act, d + 1)
                if not isinstance(r, int):
                    return r
                n = r
            return n
        if k == "or":
            for x in e["es"]:
                r = self.ev(x, n, act, d + 1)
                if r is not None:
                    return r
            return None
        if k == "rep":
            i = 0
            while e["hi"] == INF or i < e["hi"]:
                r = self.ev(e["e"], n, act, d + 1)
                if not isinstance(r, int):
                    if isinstance(r, tuple) or i < e["lo"]:
                        return r
                    break
                if e["hi"] == INF and i >= e["lo"] and r == n:
                    break
                n = r
                i += 1
            return n
        raise ValueError(k)


class Sampler:
    """A text the rules may like: a random walk over them, ignoring lookaheads."""

    def __init__(self, rng, rules, alphabet, budget=60, maxrep=4):
        self.rng, self.r, self.al, self.budget, self.maxrep = rng, rules, alphabet, budget, maxrep
        self.out = []
        self.steps = 3000

    def run(self):
        self.go({"k": "ref", "n": "main"}, 0)
        return self.out

    def go(self, e, d):
        rng, k = self.rng, e["k"]
        self.steps -= 1
        if len(self.out) > self.budget or d > 200 or self.steps < 0:
            return
        if k == "lit":
            self.out += e["s"]
        elif k == "dot":
            self.out.append(rng.choice(self.al))
        elif k == "match":
            opts = []
            if e["c"]:
                opts.append(lambda: rng.choice(e["c"]))
            for a, b in e["r"]:
                if a <= b:
                    opts.append(lambda a=a, b=b: valid(rng.choice([a, b, rng.randint(a, b)])))
            if opts:
                self.out.append(rng.choice(opts)())
        elif k == "ref":
            if e["n"] in self.r:
                self.go(self.r[e["n"]], d + 1)
        elif k == "and":
            for x in e["es"]:
                self.go(x, d + 1)
        elif k == "or":
            if e["es"]:
                i = rng.randrange(len(e["es"]))
                if len(self.out) > self.budget // 2 or d > 40 or self.steps < 1000:
                    i = min(range(len(e["es"])), key=lambda j: sum(1 for _ in walk(e["es"][j])))
                self.go(e["es"][i], d + 1)
        elif k == "rep":
            lo = e["lo"]
            hi = e["hi"] if e["hi"] != INF else lo + self.maxrep
            n = rng.choice([lo, hi, rng.randint(lo, max(lo, hi))]) + rng.choice([0, 0, 0, 0, 1, -1])
            for _ in range(min(300, max(0, n))):
                self.go(e["e"], d + 1)


def valid(c):
    """a code point that is a char"""
    c = max(0, min(c, 0x10FFFF))
    return 0xE000 if 0xD800 <= c <= 0xDFFF else c
