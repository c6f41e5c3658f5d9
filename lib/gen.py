"""Random cases for the parse engine: rule sets and texts, by profile."""
import random

import nearby
from peg import (HUGE, INF, Estimate, Sampler, all_exprs, alt, cls, cp, dot, eof, err, lit, neg, ref, rep, seq, size, valid,
                 walk)

ASCII = cp("abcdefgxyz0123456789 +-*/()[]{}<>=,.;:'\"\\_!?")
WIDE = [0xE9, 0xF1, 0xDF, 0x3B1, 0x416, 0x5D0, 0x20AC, 0x4E2D, 0x65E5, 0x3042, 0xAC00, 0xFFFD, 0x1F600, 0x1D11E,
        0x10000, 0x10FFFF, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFFF, 0xD7FF, 0xE000, 0x301, 0x200B, 0x2028, 0x85, 0xA0,
        0xFEFF, 0x7F]
#  taken for one another by those who fold, narrow or normalize
TWINS = [cp(x) for x in ["\u00e9\u00c9", "\u00df\u1e9e", "\u03c3\u03a3", "\u03c3\u03c2", "k\u212a", "\u00e5\u212b", "s\u017f", "i\u0130", "i\u0131", "I\u0131",
                         "\u0436\u0416", "\u01c6\u01c5", "A\uff21", "a\u0430", "1\u0661", "1\u00b9", "-\u2013", "\"\u201c", "'\u2019", " \u00a0", " \u3000",
                         "\n\u2028", "\n\u0085", "\n\r", "\ufb01f", "\u0301\u0300", "\u03a9\u2126", "\u00b5\u03bc", "\U0001f600\uf600", "\U00010428\U00010400",
                         "\u00e9e", "\u4e2d-", "\u0141A", "a\u0101", "aA", "\x00 ", "\ufeff\u200b", "\uffff\ufffe", "\u00aa\u00ba"]]
CONTROL = [0, 1, 7, 8, 9, 11, 12, 27, 31, 127]
LINES = [10, 13, 10, 13, 9, 32]


class Gen:
    def __init__(self, seed, dic):
        self.rng = random.Random(seed)
        self.dic = dic

    # ---- small things
    def count(self):
        """a repetition bound: small, sometimes around a power of two or a constant of the sources"""
        r = self.rng
        x = r.random()
        if x < 0.75:
            return r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        if x < 0.9:
            return r.choice([7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33])
        if x < 0.95 and self.dic["ints"]:
            return max(0, min(600, r.choice(self.dic["ints"]) + r.choice([-1, 0, 0, 1])))
        return r.choice([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257])

    def alphabet(self, kind):
        r = self.rng
        if kind == "ab":
            return cp(r.choice(["ab", "ab", "abc", "aA", "a1"]))
        if kind == "ascii":
            return r.sample(ASCII, r.randint(2, 6))
        if kind == "lines":
            return cp("ab") + r.sample([10, 13, 9, 32, 10, 13], 3)
        if kind == "twins":
            return list(r.choice(TWINS)) + (r.choice([[], [], [97], [10], list(r.choice(TWINS))]))
        if kind == "uni":
            return r.sample(WIDE, r.randint(1, 4)) + cp("a")[:r.randint(0, 1)]
        if kind == "any":
            pool = [r.choice(ASCII), r.choice(WIDE), r.choice(CONTROL), r.choice(LINES),
                    valid(r.choice([r.randint(0, 0x2FF), r.randint(0, 0xFFFF), r.randint(0, 0x10FFFF)]))]
            if self.dic["chars"]:
                pool.append(r.choice(self.dic["chars"]))
            return r.sample(pool, r.randint(2, len(pool)))
        raise ValueError(kind)

    def literal(self, al, long=0.03):
        r = self.rng
        x = r.random()
        if x < 0.05:
            return []
        if x < 0.05 + long:
            return [r.choice(al) for _ in range(r.choice([9, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129, 256, 300]))]
        if x < 0.12 + long and self.dic["strings"]:
            return cp(r.choice(self.dic["strings"]))
        return [r.choice(al) for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3, 4]))]

    def klass(self, al):
        r = self.rng
        cs = [r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        rs = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            a, b = r.choice(al), r.choice(al)
            a = valid(a + r.choice([0, 0, 0, -1, 1]))
            b = valid(b + r.choice([0, 0, 0, -1, 1, 5]))
            if r.random() < 0.9 and a > b:
                a, b = b, a
            rs.append([a, b])
        if r.random() < 0.03:
            rs += [[valid(r.randint(0, 0x500)) for _ in range(2)] for _ in range(r.choice([4, 8, 9, 16, 17, 33]))]
        if r.random() < 0.03:
            cs += [valid(r.randint(1, 0x500)) for _ in range(r.choice([16, 17, 33, 64, 65]))]
        return {"k": "match", "c": cs, "r": rs}

    def atom(self, al, w):
        r = self.rng
        x = r.random()
        if x < w.get("err", 0.02):
            return err([r.choice(al) for _ in range(r.randint(0, 5))] if r.random() < 0.5 else cp("no " + r.choice("abc")))
        x = r.random()
        if x < 0.55:
            return lit(self.literal(al, w.get("long", 0.03)))
        if x < 0.8:
            return self.klass(al)
        if x < 0.93:
            return dot()
        return eof()

    def absent(self, names):
        """no rule, but maybe much like one"""
        r = self.rng
        n = "nowhere" if r.random() < 0.4 else nearby.near(r, r.choice(names))
        return n if n not in names else "nowhere"

    def bounds(self, w):
        r = self.rng
        x = r.random()
        if x < w.get("plain", 0.55):
            return r.choice([(0, INF), (1, INF), (0, 1)])
        lo = self.count()
        y = r.random()
        if r.random() < w.get("huge", 0.05):
            return (lo if y < 0.8 else r.choice(HUGE[:4])), r.choice(HUGE[4:] if y < 0.6 else [max(HUGE)])
        if y < 0.25:
            return lo, INF
        if y < 0.45:
            return lo, lo
        return lo, lo + self.count()

    def expr(self, d, names, al, w, later=None):
        """later: the names to refer to while nothing may have been consumed; mostly, so that
        few rules are left recursive"""
        r = self.rng
        x = r.random()
        later = names if later is None else later
        if d <= 0 or x < 0.18:
            pool = names if r.random() < w.get("leftrec", 0.04) else later
            if pool and r.random() < w.get("ref", 0.35):
                return ref(r.choice(pool) if r.random() > w.get("missing", 0.02) else self.absent(names))
            return self.atom(al, w)
        if x < 0.42:
            n = r.choice([0, 1, 2, 2, 2, 3, 3, 4])
            es = []
            for _ in range(n):
                es.append(self.expr(d - 1, names, al, w, later))
                if es[-1]["k"] in ("lit", "match", "dot"):
                    later = names
            return seq(*es)
        if x < 0.68:
            n = r.choice([1, 2, 2, 2, 3, 3, 4]) if r.random() > 0.02 else 0
            return alt(*[self.expr(d - 1, names, al, w, later) for _ in range(n)])
        if x < 0.68 + w.get("rep", 0.22):
            lo, hi = self.bounds(w)
            return rep(self.expr(d - 1, names, al, w, later), lo, hi)
        return neg(self.expr(d - 1, names, al, w, later))

    def rules(self, al, w, nrules=None, depth=None):
        r = self.rng
        n = nrules or r.choice([1, 1, 2, 2, 3, 4, 5])
        pool = ["r1", "b", "Rule_2", "x.y", "q'", "\u00f1", "a b", ".d", "main2"]
        names = ["main"] + r.sample(pool, min(n - 1, len(pool)))
        if r.random() < 0.15:
            names = ["main"] + [x for x in dict.fromkeys(nearby.crowd(r, r.choice(["main", "r1", "a.b"]), n)) if x != "main"][:n - 1]
        return {nm: self.expr(depth if depth is not None else r.choice([1, 2, 2, 3, 3, 4]), names, al, w, names[i + 1:])
                for i, nm in enumerate(names)}

    def texts(self, rules, al, k, maxlen=14, budget=60, maxrep=4):
        """texts for these rules: derived, derived and damaged, random"""
        r = self.rng
        out = []
        for _ in range(k):
            x = r.random()
            t = Sampler(r, rules, al, budget, maxrep).run() if x < 0.8 else [r.choice(al) for _ in range(r.randint(0, maxlen))]
            if 0.5 < x < 0.8:
                t = self.damage(t, al)
            out.append([valid(c) for c in t])
        return out

    def damage(self, t, al):
        r = self.rng
        t = list(t)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = r.random()
            i = r.randint(0, len(t))
            if x < 0.3:
                t.insert(i, r.choice(al))
            elif x < 0.6 and t:
                t.pop(min(i, len(t) - 1))
            elif x < 0.8 and t:
                t[min(i, len(t) - 1)] = r.choice(al)
            elif x < 0.9:
                t = t[:i]
            else:
                t = t + [r.choice(al) for _ in range(r.randint(1, 3))]
        return t

    # ---- rule sets of a known shape
    def arithmetic(self):
        r = {"main": ref("expr"),
             "expr": seq(ref("term"), rep(seq(ref("_"), cls("+-"), ref("_"), ref("term")))),
             "term": seq(ref("factor"), rep(seq(ref("_"), cls("*/"), ref("_"), ref("factor")))),
             "factor": alt(ref("num"), ref("par")),
             "par": seq(lit("("), ref("_"), ref("expr"), ref("_"), alt(lit(")"), err("unbalanced"))),
             "num": rep(cls("", [("0", "9")]), 1),
             "_": rep(alt(lit(" "), lit("\n")))}
        return r, cp("0123456789+-*/() \n")

    def csvlike(self):
        r = {"main": seq(rep(ref("line"), 1), eof()),
             "line": seq(ref("cell"), rep(seq(lit(","), ref("cell"))), alt(lit("\r\n"), lit("\n"), lit("\r"))),
             "cell": alt(ref("quoted"), rep(seq(neg(cls(",\n\r\"")), dot()))),
             "quoted": seq(lit('"'), rep(alt(lit('""'), seq(neg(lit('"')), dot()))), lit('"'))}
        return r, cp("ab,\n\r\"") + [0xE9]

    def comments(self):
        r = {"main": rep(alt(ref("c"), ref("w")), 1),
             "c": seq(lit("/*"), rep(alt(ref("c"), seq(neg(lit("*/")), dot()))), alt(lit("*/"), err("open"))),
             "w": rep(cls("_ \n", [("a", "z")]), 1, self.rng.choice([3, INF]))}
        return r, cp("/*ab \n")

    def nested(self):
        o, c = self.rng.choice(["()", "[]", "ab", "\u00ab\u00bb"])
        r = {"main": alt(seq(lit(o), ref("main"), lit(c)), rep(lit("x"), 0, 2)), "un": ref("main")}
        n = self.rng.choice([3, 10, 30, 60])
        t = cp(o) * n + cp("x" * self.rng.randint(0, 3)) + cp(c) * (n + self.rng.choice([0, 0, 0, 1, -1]))
        return r, t

    def wide(self):
        """many alternatives, many members, many rules"""
        r = self.rng
        n = r.choice([9, 16, 17, 33, 64, 65, 100, 129])
        words = []
        for i in range(n):
            words.append(cp("k%d" % i) + ([10] if r.random() < 0.1 else []))
        kind = r.choice(["alt", "seq", "rules"])
        if kind == "alt":
            rules = {"main": seq(alt(*[lit(w) for w in words]), eof())}
            t = list(r.choice(words))
            if r.random() < 0.4:
                t = t[:-1] + cp(r.choice(["x", "", "9"]))
        elif kind == "seq":
            rules = {"main": seq(*[lit(w) for w in words])}
            t = [c for w in words for c in w]
            if r.random() < 0.5:
                t = self.damage(t, cp("k0"))
        else:
            rules = {"main": ref("r0")}
            for i in range(n):
                rules["r%d" % i] = seq(lit(words[i][:1]), ref("r%d" % (i + 1)) if i + 1 < n else rep(lit("z")))
            t = cp("k") * (n + r.choice([0, 0, 0, -1, 1])) + cp("z" * r.randint(0, 2))
        return rules, t

    def longtext(self, ln):
        r = self.rng
        al = self.alphabet(r.choice(["lines", "ab", "uni", "ascii", "any"]))
        body = [r.choice(al) for _ in range(ln)]
        stop = valid(r.choice([33, 0x21, 0x2603]))
        al2 = [x for x in al if x != stop] or [97]
        body = [x if x != stop else al2[0] for x in body]
        k = r.random()
        if k < 0.4:
            main = seq(rep(alt(*[lit([x]) for x in sorted(set(al2))])), lit([stop]))
        elif k < 0.7:
            main = seq(rep(seq(neg(lit([stop])), dot()), 0), lit([stop]), rep(lit([97]), 0, 3))
        else:
            main = rep(alt({"k": "match", "c": al2, "r": []}, seq(lit([stop]), eof())), 1)
        t = body + [stop]
        if r.random() < 0.5:
            t = self.damage(t, al + [stop])
        return {"main": main}, t

    def counted(self):
        """a repetition and what is around it"""
        r = self.rng
        al = self.alphabet(r.choice(["ab", "ascii", "uni"]))
        lo, hi = self.bounds({"plain": 0.2})
        x = r.random()
        inner = (lit([al[0]]) if x < 0.3 else lit([r.choice(al) for _ in range(r.randint(1, 3))]) if x < 0.45 else
                 cls([], [[min(al), max(al)]]) if x < 0.6 else alt(lit([al[0]]), lit(al[:2])) if x < 0.75 else
                 seq(lit([al[0]]), rep(lit([al[-1]]), 0, r.choice([0, 1, 2, INF]))) if x < 0.9 else
                 rep(lit([al[0]]), r.randint(0, 2), r.choice([2, 3])))
        if r.random() < 0.25:
            #  an occurrence of several steps, that can fail late
            inner = seq(*[r.choice([lit([r.choice(al)]), cls(al[:2]), dot(), neg(lit([al[-1]])), rep(lit([al[0]]), 0, 1), lit(al[:2]), ref("p")])
                          for _ in range(r.choice([2, 3, 3, 4]))])
            if r.random() < 0.5:
                lo = hi = r.choice([1, 2, 2, 3, 4])
        e = rep(inner, lo, hi)
        if r.random() < 0.3:
            e = rep(e, *r.choice([(0, 1), (1, INF), (0, INF), (2, 2), (1, 3)]))
        x = r.random()
        main = (e if x < 0.3 else seq(e, lit([al[0]])) if x < 0.45 else seq(e, rep(lit([al[-1]]))) if x < 0.6 else
                seq(lit([al[-1]]), e, eof()) if x < 0.75 else seq(ref("n"), ref("n")) if x < 0.85 else
                alt(seq(e, lit([al[-1]])), seq(e, lit([al[0]]))))
        rules = {"main": main, "n": e, "p": alt(lit(al[:2]), lit([al[-1]]))}
        one = Sampler(r, {"main": inner, "p": rules["p"]}, al, 40, 2)
        k = max(0, r.choice([lo, hi if hi != INF else lo + 2, lo - 1, (hi if hi != INF else lo) + 1, r.randint(0, 5)]))
        t = []
        for _ in range(min(k, 300)):
            one.out, one.steps = [], 300
            t += one.run()
            if len(t) > 700:
                break
        if r.random() < 0.3 and t:
            #  the last occurrence, not to its end
            t = t[:len(t) - r.choice([1, 1, 2, 3])] if len(t) > 3 else t[:-1]
        if r.random() < 0.5:
            t = t + [r.choice(al) for _ in range(r.randint(0, 2))]
        if r.random() < 0.25:
            t = [al[-1]] + t
        return rules, t

    def empties(self):
        """repetitions of what can match nothing, rules that call themselves at once"""
        r = self.rng
        al = cp(r.choice(["ab", "ab", "a\u00e9"]))
        empty = lambda: r.choice([lit([]), seq(), neg(lit([r.choice(al)])), rep(lit([r.choice(al)])),
                                  rep(lit([r.choice(al)]), 0, 1), eof(), alt(lit([r.choice(al)]), seq()),
                                  neg(neg(lit([r.choice(al)]))), ref("e"), rep(ref("e"), 0, r.choice([0, 2, INF])),
                                  seq(rep(dot(), 0, 1), rep(lit([r.choice(al)])))])
        if r.random() < 0.6:
            lo, hi = r.choice([(0, INF), (0, INF), (1, INF), (2, INF), (3, INF), (0, 5), (2, 4), (0, 0)])
            main = rep(empty(), lo, hi)
            x = r.random()
            if x < 0.4:
                main = seq(main, lit([r.choice(al)]))
            elif x < 0.6:
                main = alt(seq(main, lit([r.choice(al)])), rep(dot()))
            elif x < 0.7:
                main = rep(main, r.randint(0, 1), INF)
            rules = {"main": main, "e": alt(lit(al[:1]), seq(rep(lit(al[1:2])), rep(lit(al[:1]), 0, 1)))}
        else:
            names = ["main"] + r.choice([["p", "q", "s"], ["p", "P", "Q"], ["Main", "MAIN", "main."], ["\u00e9", "\u00c9", "e\u0301"], ["p ", " p", "p"]])[:r.randint(0, 3)]
            rules = {}
            for i, nm in enumerate(names):
                nx = names[(i + 1) % len(names)]
                pre = r.choice([seq(), rep(lit(al[:1])), neg(lit(al[1:2])), lit([]), rep(lit(al[1:2]), 0, 1), lit(al[:1])])
                tail = r.choice([seq(), lit(al[1:2]), ref(r.choice(names))])
                rules[nm] = r.choice([
                    lambda: alt(seq(pre, ref(nx), tail), lit(al[:1])),
                    lambda: alt(lit(al[:1]), seq(ref(nx), tail)),
                    lambda: seq(pre, alt(ref(nx), lit(al[1:2]))),
                    lambda: seq(rep(seq(pre, ref(nx))), tail),
                    lambda: alt(seq(neg(ref(nx)), lit(al[:1])), seq(lit(al[:1]), tail)),
                    lambda: rep(alt(lit(al[:1]), ref(nx)), 0, r.choice([1, 3, INF]))])()
            rules["e"] = seq()
        return rules, [r.choice(al) for _ in range(r.randint(0, 7))]

    def ring(self):
        """rules that lead to each other, in a ring or a chain of any length"""
        r = self.rng
        al = cp(r.choice(["ab", "ab", "a\u00e9"]))
        n = r.choice([3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 127, 128, 129, 150])
        if r.random() < 0.1 and self.dic["ints"]:
            n = max(3, min(200, r.choice(self.dic["ints"]) + r.choice([-1, 0, 1])))
        names = [r.choice(["r%d", "r%d", "R%d", "r%d'", "x.R%d", "\u00c9%d"]) % i for i in range(n)]
        names[0] = "main" if r.random() < 0.5 else names[0]
        rules = {"main": ref(names[0])}
        same = r.random() < 0.5
        eats = r.choice([None, None, None, r.randrange(n), n - 1])
        back = r.choice([0, 0, 0, 1, r.randrange(n), n - 1, None, None])
        kind = r.randrange(6)
        for i, nm in enumerate(names):
            nx = names[i + 1] if i + 1 < n else names[back] if back is not None else r.choice(["nowhere", "end"])
            k = kind if same else r.choice([0, 0, 0, 1, 2, 3, 4, 5])
            if i == eats:
                rules[nm] = alt(seq(lit(al[:1]), ref(nx)), lit(al[:1]))
            else:
                rules[nm] = [lambda: ref(nx), lambda: seq(lit([]), ref(nx)), lambda: alt(lit(al[1:2]), ref(nx)),
                             lambda: seq(rep(lit(al[1:2]), 0, 1), ref(nx)), lambda: seq(neg(lit(al[1:2])), ref(nx)),
                             lambda: alt(seq(ref(nx), lit(al[1:2])), lit(al[1:2]))][k]()
        rules["end"] = rep(dot())
        return rules, [r.choice(al[:1] * 3 + al) for _ in range(r.randint(0, 5))]

    def special(self):
        """two or three characters, some of which may be taken for more than they are"""
        r = self.rng
        x = r.choice([10, 13, 9, 32, 0, 0x7F, 0x85, 0xA0, 0x200B, 0x2028, 0xFEFF, 0xFFFD, 0x301, 0x1F600, 39, 34, 92, 45, 47, 46, 11, 12, 26, 4])
        return r.choice([[x, 97], [97, x], [x, 10], [13, 10], [x, 97, 98], [x, 0xE9]])

    def deep(self):
        """expressions inside expressions, many times"""
        r = self.rng
        al = self.alphabet("ab") if r.random() < 0.7 else self.special()
        a, b = lit(al[:1]), lit(al[1:2])
        n = r.choice([8, 12, 16, 20, 24, 28, 32, 40, 48])
        rules = {"main": None, "b": r.choice([b, a, alt(b, a)])}
        pick = [lambda e: neg(e), lambda e: seq(e), lambda e: alt(e), lambda e: alt(b, e), lambda e: alt(e, b), lambda e: rep(e, 0, 1),
                lambda e: rep(e, 1, 1), lambda e: seq(neg(b), e), lambda e: seq(rep(b, 0, 1), e), lambda e: seq(lit([]), e), lambda e: seq(e, rep(b)),
                lambda e: alt(seq(b, a), e), lambda e: alt(seq(a, e), seq(b, b), a), lambda e: neg(seq(e)), lambda e: neg(neg(e)), lambda e: rep(e, 1, 2),
                lambda e: rep(e, 0, INF), lambda e: alt(seq(ref("b"), e), b), lambda e: seq(neg(neg(e)), b), lambda e: alt(err(al), e)]
        some = r.sample(pick, r.choice([1, 1, 1, 2, 3]))
        e = r.choice([a, b, dot(), ref("b"), eof(), lit(al), seq(), seq(a, b), rep(a)])
        for i in range(n):
            e = some[i % len(some)](e) if r.random() < 0.97 else r.choice(pick)(e)
            if r.random() < 0.02:
                rules["x%d" % i], e = e, ref("x%d" % i)
        rules["main"] = r.choice([e, seq(e, rep(dot())), seq(rep(a, 0, 1), e), alt(e, rep(a)), rep(e, 0, 2)])
        return rules, [r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]

    def choices(self):
        """alternatives that are short sequences, of things that match nothing and things that match something"""
        r = self.rng
        al = cp(r.choice(["ab", "ab", "aA", "a\u00e9"])) if r.random() < 0.7 else self.special()
        a, b = [lit(al[:1]), lit(al[1:2])]
        some = lambda: r.choice([a, b, a, b, dot(), lit(al), lit(al[::-1]), cls(al[:1]), cls([], [al[:2]]) if al[0] < al[1] else cls(al), ref("n")])
        none = lambda: r.choice([lit([]), seq(), neg(a), neg(b), rep(a, 0, 1), rep(b), rep(some(), 0, 0), eof(), neg(neg(a)), neg(dot()), neg(eof()),
                                 rep(lit([]), 1), alt(lit([]), a), ref("e")])
        side = lambda: seq(*r.choice([lambda: [none(), some()], lambda: [some(), none()], lambda: [none(), none()], lambda: [none(), some(), some()],
                                      lambda: [some(), some()], lambda: [none(), some(), none()]])())
        one = lambda: some() if r.random() < 0.35 else none() if r.random() < 0.15 else side()
        main = alt(*[one() for _ in range(r.choice([2, 2, 3, 3, 3, 4]))])
        x = r.random()
        main = (main if x < 0.4 else seq(main, one()) if x < 0.6 else rep(main, 0, 3) if x < 0.7 else seq(neg(main), rep(dot())) if x < 0.75 else
                seq(rep(main, r.choice([0, 1])), eof()) if x < 0.9 else seq(one(), main))
        rules = {"main": main, "n": r.choice([a, seq(lit([]), a), alt(b, a), seq(neg(b), dot())]), "e": r.choice([lit([]), rep(a, 0, 1), neg(b), seq()])}
        return rules, [r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 4]))]

    def locations(self):
        """failures in texts of several lines"""
        r = self.rng
        al = cp("ab") + r.sample([10, 13, 9, 0xE9, 0x1F600, 32, 0x2028, 0x85], 3) + [10]
        x = r.random()
        word = rep(cls([c for c in al if c not in (10, 13)], [[97, 122]]), r.choice([0, 1, 1]))
        line = seq(word, alt(lit([13, 10]), lit([10]), lit([13])))
        main = (rep(line) if x < 0.3 else seq(rep(line, r.randint(0, 3)), lit(cp("b")), eof()) if x < 0.5 else
                alt(seq(line, line, lit(cp("zz"))), seq(line, line, line, err("boom")), dot()) if x < 0.65 else
                lit([r.choice(al) for _ in range(r.randint(1, 8))]) if x < 0.75 else
                rep(dot(), 0, r.randint(0, 9)) if x < 0.9 else
                seq(rep(dot(), r.randint(0, 9), 12), neg(dot())))
        t = [r.choice(al) for _ in range(r.choice([0, 1, 3, 6, 10, 15, 25]))]
        if main["k"] == "lit" and r.random() < 0.8:
            t = self.damage(main["s"], al)
        if r.random() < 0.05:
            t = t + [r.choice(al[:2]) for _ in range(r.choice([80, 130, 260]))] + [r.choice(al) for _ in range(3)]
        return {"main": main}, t

    def stops(self):
        """one terminal of any kind, after a prefix of any kind, before an end of any kind"""
        r = self.rng
        al = self.alphabet(r.choice(["ab", "ab", "uni", "any", "twins", "lines", "ascii"]))
        pool = al + [10, 13, 97]
        prefix = [r.choice(pool) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5]))] + r.choice([[], [], [10], [13], [13, 10], [10, 13]])
        few = lambda lo, hi: [r.choice(al) for _ in range(r.randint(lo, hi))]
        bound = lambda: sorted(valid(c + r.choice([0, 0, 1, -1, 3])) for c in (r.choice(al), r.choice(al)))
        k = r.random()
        t = (lit(few(1, 1)) if k < .15 else lit(few(2, 5)) if k < .35 else dot() if k < .43 else eof() if k < .51 else
             cls(few(1, 4), []) if k < .6 else cls([], [bound()]) if k < .7 else cls([], [bound() for _ in range(r.randint(2, 4))]) if k < .85 else
             cls(few(1, 3), [bound() for _ in range(r.randint(1, 3))]) if k < .95 else cls([], [bound()[::-1]]) if k < .98 else cls([], []))
        first = (seq(*[lit([c]) for c in prefix]) if r.random() < .3 else rep(dot(), len(prefix), len(prefix)) if r.random() < .3 else
                 rep(cls(sorted(set(prefix)), []), len(prefix), len(prefix)) if prefix and r.random() < .3 else lit(prefix))
        near = t.get("s", [])
        end = r.choice([[], [], near[:-1], near[:1], near, few(1, 1), near[:-1] + few(1, 1), few(1, 3), near + few(1, 1), [10], near[:-1] + [10], [13]])
        x = r.random()
        body = (t if x < .4 else seq(t, eof()) if x < .5 else alt(t, lit(few(1, 3))) if x < .57 else alt(lit(few(1, 3)), t) if x < .64 else
                rep(t, r.choice([0, 1, 2]), r.choice([2, 3, INF])) if x < .74 else seq(rep(dot(), 0, 0), t) if x < .8 else
                seq(neg(t), dot()) if x < .86 else alt(seq(t, t), t) if x < .93 else rep(seq(t, lit(few(1, 1)))))
        rules = {"main": seq(first, body)}
        if r.random() < .25:
            rules = {"main": seq(first, ref("stop")), "stop": body}
        elif r.random() < .1:
            rules = {"main": alt(seq(first, body), lit(prefix[:1]))}
        return rules, prefix + end

    def bombs(self):
        """what ends the parse, inside of everything, and a text that gets there"""
        r = self.rng
        al = self.alphabet(r.choice(["ab", "ab", "ab", "uni", "lines"]))
        few = lambda lo, hi: [r.choice(al) for _ in range(r.randint(lo, hi))]
        rules, text = {}, []
        e = err(few(0, 4)) if r.random() < .5 else ref(r.choice(["nowhere", "r", "", "Main", "main ", "r1"]))
        for d in range(r.randint(1, 6)):
            u = few(1, 2)
            n = r.choice([0, 1, 1, 2, 2, 3, 4])
            lo, hi = r.choice([(0, INF), (1, INF), (0, 1), (2, INF), (0, n + 1), (n, n + 2), (2, 3)])
            k = r.randrange(11)
            if k < 2:
                e, text = seq(lit(u), e), u + text
            elif k < 4:
                e, text = rep(alt(lit(u), e), lo, max(hi, n) if hi != INF else hi), u * n + text
            elif k == 4:
                e = alt(lit(few(1, 3)), e)
            elif k == 5:
                e = alt(e, r.choice([dot(), lit(u), lit([])]))
            elif k == 6:
                e, text = seq(rep(seq(neg(e), lit(u)), lo, hi), r.choice([e, lit(u), eof()])), u * n + text
            elif k == 7:
                e = rep(e, lo, hi)
            elif k == 8:
                e = seq(neg(e), r.choice([dot(), lit(u), lit([]), rep(dot())]))
            elif k == 9:
                rules["r%d" % d] = e
                e = ref("r%d" % d)
            else:
                e, text = seq(r.choice([rep(lit(u)), rep(lit(u), 0, n), rep(dot(), n, n)]), e), u * n + text
        rules["main"] = e if r.random() < .4 else seq(e, rep(dot())) if r.random() < .7 else alt(e, rep(dot()))
        text = text + few(0, 3)
        if r.random() < .25:
            text = self.damage(text, al)
        return rules, text


# profile -> weights of the shapes
MIX = {
    "C01": dict(bombs=0.3, stops=0.5, rand=6, twins=.5, ascii=2, uni=1, shapes=2, wide=.5, long=.15, counted=.7, empties=.7, nested=.3, ring=.3, choices=1.2, deep=0.3),
    "C02": dict(stops=0.4, rand=6, twins=.5, ascii=2, uni=1.5, shapes=3, wide=.4, long=.15, counted=.7, empties=.4, nested=.5, ring=.3, choices=1, deep=0.2),
    "C03": dict(stops=2, uni=5, twins=3, anych=4, longuni=.2, locations=2, counted=.5, choices=.3),
    "C04": dict(stops=2, locations=6, rand=2, uni=1, shapes=2, long=.2, lines=3),
    "C05": dict(bombs=0.3, stops=4, rand=6, twins=.5, ascii=2, lines=1, shapes=3, wide=.6, long=.1, counted=1, locations=1, uni=1, ring=.3, choices=1.5, deep=0.3),
    "C06": dict(bombs=4, aborts=8, shapes=2, rand=1, ring=.4, deep=0.3),
    "C07": dict(stops=0.8, empties=6, aborts=1, anych=3, rand=3, long=.2, nested=.5, uni=1, locations=1, ring=1, choices=.5, deep=0.8),
    "C08": dict(counted=8, empties=.8, rand=.6, choices=.3, deep=0.1),
    "C09": dict(bombs=0.5, stops=0.5, rand=5, aborts=1, shapes=3, uni=.5, nested=.4, wide=.4, counted=.5, empties=1, long=.05, ring=.4, choices=.6, deep=0.3),
}


def parse_cases(prop, seed, count, dic, fuel=3000):
    """-> list of {"id", "rules", "text", "shape"}"""
    g = Gen("%s/%s" % (prop, seed), dic)
    r = g.rng
    mix = MIX[prop]
    single = ("wide", "nested", "counted", "empties", "locations", "ring", "choices", "deep", "stops", "bombs")
    shapes, weights = list(mix), [w * 2.5 if k in single else w for k, w in mix.items()]
    out = []
    quota = {"accept": 0, "other": 0}
    while len(out) < count:
        shape = r.choices(shapes, weights)[0]
        al = None
        if shape in ("rand", "ascii", "uni", "lines", "anych", "twins"):
            al = g.alphabet({"rand": "ab", "anych": "any"}.get(shape, shape)) if shape != "rand" or r.random() < 0.85 else g.special()
            rules = g.rules(al, {})
            texts = g.texts(rules, al, 3)
        elif shape == "aborts":
            al = g.alphabet(r.choice(["ab", "ascii", "lines"]))
            rules = g.rules(al, {"err": 0.15, "missing": 0.2, "ref": 0.4})
            if r.random() < 0.1:
                rules.pop("main")
            texts = g.texts(rules, al, 3)
        elif shape == "shapes":
            rules, al = r.choice([g.arithmetic, g.csvlike, g.comments])()
            texts = g.texts(rules, al, 2, 20, r.choice([10, 25, 60]))
        elif shape in ("wide", "nested", "counted", "empties", "locations", "ring", "choices", "deep", "stops", "bombs"):
            rules, t = getattr(g, shape)()
            texts = [t]
        elif shape in ("long", "longuni"):
            rules, t = g.longtext(r.choice([100, 255, 256, 257, 500, 1000]))
            texts = [t]
        for t in texts:
            big = shape in ("wide", "long", "longuni", "nested", "ring", "deep") or (shape == "counted" and r.random() < 0.3)
            if size(rules) > 400 and not big:
                continue
            n = Estimate(rules, t, fuel * 3 if big else fuel // (3 if len(out) % 4 else 1), 1500 if shape in ("ring", "deep") else 400)
            res = n.run()
            if n.gave_up:
                continue
            good = res == len(t)
            #  texts that are accepted are the interesting ones for most properties
            if not good and len(t) < 2 and r.random() < 0.5:
                continue
            out.append({"id": "%s-%d" % (shape, len(out)), "rules": rules, "text": t})
            if len(out) >= count:
                break
    return out
