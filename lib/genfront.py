"""Random grammar texts, by profile.  What they mean is decided by the specification,
so nothing here has to be right, only varied."""
import random

from meta import META
from peg import Estimate, cp

NAMECH = "abcdefgxyzABCXYZ_0123456789"
UNI = "\u00e9\u00f1\u03b1\u0416\u20ac\u4e2d\U0001F600\U0010FFFF\u0301\u2028\u0085\u00a0\ufeff\u07ff\u0800\u202e\u2066\u202a"


#  the names the grammar of grammars uses itself; what looks like a part of a grammar
META_NAMES = sorted(n for n in META if n.replace("_", "").isalnum() or n == "_")
TOKENS = ["=", "/", "(", ")", "error", "main = x", "{", "}", "*", "+", "?", "!", ".", "[a-z]", "_", "]", "-", ",", "//", "/*", "main", "a.b", " ", "  ", "error(x)", "<", ">", ": ", "#", "r:main"]


class Front:
    def __init__(self, seed, dic):
        self.rng = random.Random(seed)
        self.dic = dic
        self.plain()

    # ---- layout
    def plain(self):
        self.style = "plain"
        self.eol = "\n"

    def layout(self, style=None):
        r = self.rng
        self.style = style or r.choice(["plain", "loose", "comments", "tight"])
        self.eol = r.choice(["\n", "\n", "\r\n", "\r"]) if style != "plain" else "\n"

    def nl(self):
        return self.eol if self.rng.random() < 0.85 else self.rng.choice(["\n", "\r\n", "\r", "\n\r", "\r\r\n", "\n\n"])

    def comment(self):
        r = self.rng
        inner = r.choice(["", " note ", "a = 'b'", "x = y", "'", '"', "[", "(", ")", "*", "/", "//", "}", "{", "=", "* /", "error(", "\u00e9",
                          "\U0001F600 x", "main = 'z'", "/*", "\\", "-"])
        if self.dic["strings"] and r.random() < 0.1:
            inner = r.choice(self.dic["strings"])
        if r.random() < 0.5:
            inner = inner.replace("\n", " ").replace("\r", " ")
            return "//" + inner + r.choice([self.eol, "\n", "\r\n", "\r"])
        inner = inner.replace("*/", "")
        if r.random() < 0.3:
            inner += r.choice(["\n", "\r\n", "\n\n", "//", "*"]) + r.choice(["", "x = 'y'\n", "'"])
        return "/*" + inner + "*/"

    def ws(self, must=False):
        """white space (_), or (_1 _) when it must be there"""
        r = self.rng
        if self.style == "plain":
            return " " if must else r.choice(["", " ", " "])
        if self.style == "tight":
            return " " if must else ""
        n = r.choice([0, 1, 1, 2, 3])
        out = ""
        if must:
            out = r.choice([" ", " ", self.nl()])
        for _ in range(n):
            x = r.random()
            if self.style == "comments" and x < 0.4:
                out += self.comment()
            elif x < 0.75:
                out += " " * r.choice([1, 1, 2, 5])
            else:
                out += self.nl()
        return out

    def end(self):
        """_eol _"""
        r = self.rng
        if self.style in ("plain", "tight"):
            return "\n"
        out = " " * r.choice([0, 0, 1, 3])
        if self.style == "comments" and r.random() < 0.4:
            out += r.choice([self.comment(), "/* x */", "/**/"])
        return out + self.nl() + self.ws()

    # ---- pieces
    def name(self, odd=0.25):
        r = self.rng
        x = r.random()
        if x < 1 - odd:
            return r.choice(["a", "b", "c", "rule", "x1", "_p", "Ab", "item", "main"])
        if x < 1 - odd / 3:
            n = "".join(r.choice(NAMECH) for _ in range(r.choice([1, 2, 3, 8])))
            return r.choice([n, n + "'", n + '"', n + "'\"_2", "." + n, n + "." + n, "." + n + ".b.c", "9", "_", "__", "_'", '_"', "error", "errors",
                             r.choice(META_NAMES), r.choice(META_NAMES),
                             "n" * r.choice([16, 32, 64, 100])])
        if self.dic["strings"]:
            s = "".join(c for c in r.choice(self.dic["strings"]) if c.isascii() and (c.isalnum() or c in "_."))
            return s or "z"
        return "z"

    def char(self):
        r = self.rng
        x = r.random()
        if x < 0.55:
            return r.choice("abcxyz019")
        if x < 0.8:
            return r.choice(" !#$%&()*+,-./:;<=>?@[]^_`{|}~\\")
        if x < 0.92:
            return r.choice(UNI)
        if x < 0.96:
            c = r.choice([r.randint(0, 0x2FF), r.randint(0, 0xFFFF), r.randint(0, 0x10FFFF)])
            return chr(c) if not 0xD800 <= c <= 0xDFFF else "a"
        return r.choice(["\n", "\r", "\t", "\r\n", "\0", "\x7f", "'", '"'])

    def lit_noesc(self):
        r = self.rng
        n = r.choice([0, 1, 1, 2, 3, 5]) if r.random() < 0.95 else r.choice([16, 17, 64, 65, 130])
        s = "".join(self.char() for _ in range(n)).replace("'", "")
        if r.random() < 0.12:
            s = r.choice(TOKENS)
        if r.random() < 0.15:
            s += r.choice(["\\n", "\\", "\\\\", "//", "/*", "*/", "\\0x41", '"', "\\'"]).replace("'", "")
        return "'" + s + "'"

    def lit_esc(self):
        r = self.rng
        out = ""
        if r.random() < 0.25:
            return self.lit_hex()
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
            x = r.random()
            if x < 0.35:
                out += self.char().replace('"', "q")
            elif x < 0.65:
                out += r.choice(["\\n", "\\r", "\\t", "\\\\", '\\"'])
            elif x < 0.85:
                out += "\\0x%02X" % r.randint(0, 255)
            else:
                out += r.choice(["\\q", "\\0", "\\0x", "\\0xg1", "\\0x4", "\\0xaB", "\\x41", "\\u", "'", "//", "/*", "\\ ", "\\0x0G", "\\N"])
        if out.endswith("\\"):
            out += "n"
        return '"' + out + '"'

    def lit_hex(self):
        """characters by number, side by side, with what could be taken for a part of them"""
        r = self.rng
        hexa = lambda n: "\\0x%02X" % n
        out = ""
        for _ in range(r.choice([1, 2, 2, 3])):
            x = r.random()
            #  the bytes of one character of UTF-8
            if x < .3:
                out += "".join(map(hexa, chr(r.choice([r.randint(0x80, 0x7FF), r.randint(0x80, 0xFF), r.randint(0x800, 0xD7FF), 0x1F600])).encode()))
            elif x < .55:
                out += hexa(r.choice([0x22, 0x27, 0x5C, 0x0A, 0x0D, 0, 0x7F, 0x80, 0xFF, 0x2D, 0x5D, 0xAD])) + r.choice(["", "n", "0x41", "\\n", "'", "\\\""])
            elif x < .75:
                out += hexa(r.randint(0, 255)) + r.choice(["0", "F", "41", "a", "x", "\\\\", hexa(r.randint(0, 255))])
            else:
                out += "".join(hexa(r.randint(0, 255)) for _ in range(r.choice([1, 2, 4])))
        return '"' + out + '"'

    def literal(self):
        return self.lit_noesc() if self.rng.random() < 0.6 else self.lit_esc()

    def klass(self):
        r = self.rng
        x = r.random()
        if x < 0.12:
            return "[" + "".join(self.char() for _ in range(r.randint(0, 4))) + "]"
        out = ""
        if r.random() < 0.6:
            n = r.choice([1, 1, 2, 3, 6])
            out = "".join(self.char() for _ in range(n)).replace("]", "").replace("-", "")
        for _ in range(r.choice([0, 1, 1, 2, 3]) if out else r.choice([1, 1, 2, 3])):
            a, b = self.char()[0], self.char()[0]
            if r.random() < 0.85 and a > b:
                a, b = b, a
            if r.random() < 0.7:
                a, b = r.choice([("a", "z"), ("0", "9"), ("A", "F"), ("\u00e0", "\u00ff"), ("b", "b"), (" ", "~")])
            out += a + "-" + b
        return "[" + out + "]"

    def err(self):
        return "error" + self.ws() + "(" + self.ws() + self.literal() + self.ws() + ")"

    def atom(self, names):
        r = self.rng
        x = r.random()
        if x < 0.4:
            return self.literal()
        if x < 0.55:
            return self.klass()
        if x < 0.9:
            return r.choice(names) if names and r.random() < 0.9 else self.name()
        return "."

    def primary(self, d, names):
        r = self.rng
        if d <= 0 or r.random() < 0.6:
            return self.atom(names)
        return "(" + self.ws() + self.expr(d - 1, names) + self.ws() + ")"

    def suffixed(self, d, names):
        r = self.rng
        x = r.random()
        if x < 0.15:
            return "!" + self.primary(d, names)
        return self.primary(d, names) + (r.choice("*+?") if x < 0.5 else "")

    def sequence(self, d, names):
        r = self.rng
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            out.append(self.suffixed(d, names) if r.random() > 0.04 else self.err())
        s = out[0]
        for o in out[1:]:
            s += self.ws(True) + o
        return s

    def expr(self, d, names):
        r = self.rng
        s = self.sequence(d, names)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            s += self.ws() + "/" + self.ws() + self.sequence(d, names)
        return s

    def rule(self, name, names, d):
        return name + self.ws() + "=" + self.ws() + self.expr(d, names) + self.end()

    def grammar(self, nrules=None, d=2):
        r = self.rng
        n = nrules or r.choice([1, 1, 2, 3, 4])
        names = ["main"] + [self.name() for _ in range(n - 1)]
        return self.ws() + "".join(self.rule(x, names, d) for x in names)

    # ---- profiles
    def structure(self):
        self.layout(self.rng.choice(["plain", "plain", "tight", "loose"]))
        return self.grammar(d=self.rng.choice([1, 2, 2, 3, 3]))

    def wide(self):
        r = self.rng
        self.plain()
        n = r.choice([9, 17, 33, 40])
        k = r.random()
        if r.random() < 0.6:
            return "main = " + self.groups(r.choice([1, 1, 2, 3])) + "\n" + r.choice(["", "a = 'x'\n"])
        if k < 0.3:
            return "main = " + " / ".join(r.choice(["'%d'" % i, "a%d" % i]) for i in range(n)) + "\n"
        if k < 0.6:
            return "main = " + " ".join(r.choice(["'%d'" % i, "a%d" % i, "."]) for i in range(n)) + "\n"
        if k < 0.8:
            o = r.choice([5, 9, 12])
            return "main = " + "(" * o + "'x'" + "".join(")" + r.choice(["", "*", "?", "+", " 'y'", " / 'z'"]) for _ in range(o)) + "\n"
        return "".join("r%d = '%d'\n" % (r.choice([i, i, i // 2]), i) for i in range(n))

    def groups(self, d):
        """short terms, many of them, in groups at any place of longer ones"""
        r = self.rng
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8])
        term = lambda: r.choice(["a", "b", "'x'", "."]) + r.choice(["", "", "", "", "*", "?", "+"])
        parts = [r.choice(["", "", "!"]) + term() for _ in range(n)]
        if d > 0:
            for i in set([r.choice([0, 0, n - 1, r.randrange(n)]) for _ in range(r.choice([1, 1, 2]))]):
                parts[i] = r.choice(["", "", "", "!"]) + "(" + self.groups(d - 1) + ")" + r.choice(["", "", "", "*", "?", "+"])
        x = r.random()
        if x < .45:
            return " ".join(parts)
        if x < .8:
            return " / ".join(parts)
        return "".join(p + r.choice([" ", " ", " / "]) for p in parts[:-1]) + parts[-1]

    def literals(self):
        r = self.rng
        self.layout(r.choice(["plain", "tight"]))
        parts = []
        for _ in range(r.choice([1, 2, 3])):
            parts.append(r.choice([self.lit_noesc, self.lit_esc, self.lit_esc, self.klass, self.klass, self.err])())
        return "main = " + r.choice([" ", " / "]).join(parts) + "\n"

    def sweep(self, i):
        """every character in every kind of place, one after the other"""
        self.plain()
        c = i % 0x180
        kind = (i // 0x180) % 6
        ch = chr(c)
        b = chr(min(c + 1, 0x17f))
        return ["main = '%s'\n" % ch, "main = \"%s\"\n" % ch, "main = [%s]\n" % ch, "main = [%s-%s]\n" % (ch, b),
                "main = \"\\0x%02X\"\n" % (c % 256), "main = error('%s') / \"x\\%s\"\n" % (ch, ch)][kind]

    def layouts(self):
        r = self.rng
        self.layout(r.choice(["loose", "comments", "comments", "comments"]))
        t = self.grammar(nrules=r.choice([1, 2, 2, 3]), d=r.choice([0, 1, 1, 2]))
        if r.random() < 0.15:
            t = t.rstrip() + r.choice(["", " ", "\n", "\r", " // end", "// end\n", "/* */\n", "\n\n \n"])
        return t

    def module(self, d):
        r = self.rng
        s = r.choice(["m", "mod_1", "_", "b", "main", "x'"]) + self.ws() + "{" + self.ws()
        s += self.items(d - 1) + self.ws() + "}" + self.end()
        return s

    def items(self, d):
        r = self.rng
        out = ""
        for _ in range(r.choice([1, 1, 2, 3])):
            if d > 0 and r.random() < 0.4:
                out += self.module(d)
            else:
                out += self.rule(self.name(0.3), ["a", "b", "c", "main"], 0)
        return out

    def modules(self):
        self.layout(self.rng.choice(["plain", "plain", "loose", "comments"]))
        return self.ws() + self.items(self.rng.choice([0, 1, 1, 2, 2, 3]))

    def nested(self):
        """one inside the other, many times"""
        r = self.rng
        self.layout(r.choice(["plain", "tight"]))
        n = r.choice([6, 9, 12, 16, 20, 24, 28, 32, 40])
        x = r.random()
        atom = r.choice(["a", "'x'", ".", "[a-z]", "!b", "error('e')", "a b", "a / b", "b*"])
        if x < 0.2:
            t = "(" * n + atom + ")" * n
        elif x < 0.35:
            u = r.choice(["*", "+", "?", None])
            t = "(" * n + atom + "".join(")" + (u or r.choice("*+?")) for _ in range(n))
        elif x < 0.45:
            t = "!(" * n + atom + ")" * n
        elif x < 0.6:
            o = r.choice(["(a / ", "(a ", "('x' / ", "(b* ", "(!c ", "( "])
            t = o * n + atom + ")" * n
        elif x < 0.75:
            c = r.choice([" / a)", " a)", " / 'x')", " )", " b*)", "\n)"])
            t = "(" * n + atom + c * n
        elif x < 0.85:
            mods = r.random() < 0.8
            o, c = r.choice([("m {\n", "}\n"), ("m{", "}\n"), ("_ { ", "} \n"), ("m {\na = 'x'\n", "}\n"), ("m {\n", "}\na = 'y'\n")])
            n = min(n, 20)
            t = o * n + "a = 'b'\n" + c * (n if mods else n - 1)
            return t
        else:
            o, c = zip(*[r.choice([("(", ")"), ("(", ")*"), ("!(", ")"), ("(a / ", ")"), ("(", " b)"), ("(", " / c)?")]) for _ in range(n)])
            t = "".join(o) + atom + "".join(reversed(c))
        y = r.random()
        if y < 0.12:
            t = t[:len(t) - r.choice([1, 1, 2, 5])]
        elif y < 0.2:
            t += ")"
        elif y < 0.25:
            i = r.randrange(len(t))
            t = t[:i] + r.choice(list("()!*/ ")) + t[i:]
        return "main = " + r.choice(["", "", "a / ", "a "]) + t + "\n"

    def soup(self):
        r = self.rng
        toks = ["main", "a", " ", " ", "=", "'x'", '"y"', "(", ")", "/", "*", "+", "?", "!", ".", "[a-z]", "[", "]", "{", "}", "\n", "\n", "\r", "//",
                "/*", "*/", "error", "error('e')", "'", '"', "-", "\\", "\t", "\u00e9", "\U0001F600", "main = 'x'\n", "m {", "}\n", ",", "#", "_", "\\0x4"]
        return "".join(r.choice(toks) for _ in range(r.choice([0, 1, 2, 4, 8, 16])))

    def damaged(self):
        r = self.rng
        t = r.choice([self.structure, self.layouts, self.modules, self.literals])()
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            i = r.randint(0, len(t))
            x = r.random()
            if x < 0.35 and t:
                t = t[:i] + t[i + 1:]
            elif x < 0.6:
                t = t[:i] + r.choice(list("()[]{}=/*+?!.'\"\\ \n\r\t-_#a0") + ["//", "/*", "*/", "\u00e9", "\U0001F600", "error("]) + t[i:]
            elif x < 0.8 and t:
                j = min(len(t), i + r.randint(1, 6))
                t = t[:i] + t[j:]
            elif x < 0.9:
                t = t[:i]
            else:
                j = r.randint(0, len(t))
                i, j = min(i, j), max(i, j)
                t = t[:j] + t[i:j] + t[j:]
        return t


MIX = {
    "C12": dict(structure=7, wide=3, layouts=1, nested=.3),
    "C13": dict(literals=6, sweep=3, structure=.5),
    "C14": dict(layouts=8, modules=1, nested=.2),
    "C15": dict(damaged=7, soup=2, structure=1, literals=1, modules=.5, nested=.3),
    "C16": dict(modules=8, structure=1, wide=.6, nested=.2),
    "C17": dict(structure=3, literals=5, modules=1, layouts=.5, wide=.3, nested=.2),
    "C18": dict(structure=2, literals=2, modules=2, layouts=2, damaged=3, soup=.5, nested=.3),
}


def front_cases(prop, seed, count, dic, maxlen=260, fuel=25000):
    g = Front("%s/%s" % (prop, seed), dic)
    mix = MIX[prop]
    shapes, weights = list(mix), list(mix.values())
    out, seen = [], set()
    k = g.rng.randrange(1 << 20)
    tries = 0
    while len(out) < count and tries < 40 * count:
        tries += 1
        shape = g.rng.choices(shapes, weights)[0]
        if shape == "sweep":
            t = g.sweep(k)
            k += 1
        else:
            t = getattr(g, shape)()
        t = "".join(c for c in t if not 0xD800 <= ord(c) <= 0xDFFF)
        if len(t) > (max(maxlen, 220) if shape == "nested" and maxlen > 100 else maxlen) or t in seen:
            continue
        seen.add(t)
        e = Estimate(META, cp(t), fuel, 1500 if shape == "nested" else 400)
        e.run()
        if e.gave_up:
            continue
        out.append({"id": "%s-%d" % (shape, len(out)), "text": cp(t)})
    return out
