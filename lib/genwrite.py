"""Random grammars as items (spec/PegText.tla) and layouts, with the text they give.
That the text is the one, and what it stands for, is decided by spec/TraceWritten.tla."""
import random

from peg import cp

ERROR = cp("error")
EVIL = ["\\n", "\\r", "\\t", "\\\\", "\\", "\\0x41", "\\0x", "0x41", "\\\"", "\"", "//", "/*", "*/", "\n", "\r\n", "\r", "\t", " ", "  ", "]", "[", "-", "^", "[^",
        "=", "!", "/", "*", "+", "?", ".", "(", ")", "{", "}", "a=b", "main = ", "error(", "\u00e9", "\U0001F600", "\U0010FFFF", "\0", "\x7f", "\x80", "\xff",
        "n", "r", "t", "0", "x", "\\u{41}", "\\x41", "\\'", "&", "|", ";", "#", "#\"", "\"#", "r#", "$", "%", "{}", "{0}", "\\{", "%s", "\u2028", "\u0301",
        "\ufeff", "_", ",", ":", "@", "~", "`", "<", ">", "aa", "A", "z", "9", "\uffff", "\ud7ff", "\ue000", "\u0130", "\u1e9e", "\u00df", "\u00a0", "\u0085", "\u200b"]
WORDS = ["a", "b", "c", "x", "ab", "rule", "main", "Main", "grammar", "literal", "expr", "or", "and", "atom", "dot", "match", "module", "mchars", "symbol", "parenth",
         "rep_or_neg", "lit_esc", "lit_noesc", "_", "__", "_1", "_eol", "eol", "comment", "error", "errors", "self", "fn", "let", "r", "n", "t", "0", "9", "1a", "EOF", "eof",
         "A", "B", "aB", "a_", "a_b", "rule_name", "item", "mod_name", "line_comment", "value", "true", "e", "x41", "0x41", "u", "rules", "ref_rule", "lit"]


def tx(s): return [("t", cp(s) if isinstance(s, str) else s)]


O, S, E = [("o", None)], [("s", None)], [("e", None)]


def lit_text(x):
    return [34] + x["q"] + [34] if "q" in x else [39] + x["s"] + [39]


def join(xs, sep):
    out = []
    for i, x in enumerate(xs):
        out += (sep if i else []) + x
    return out


def wrap(x): return tx("(") + O + show(x, 0) + O + tx(")")


def show(x, level):
    k = x["k"]
    if k == "lit":
        return tx(lit_text(x))
    if k == "match":
        return tx([91] + x["c"] + [c for a, b in x["r"] for c in (a, 45, b)] + [93])
    if k == "dot":
        return tx(".")
    if k == "ref":
        return tx(x["n"])
    if k == "par":
        return wrap(x["e"])
    if k == "err":
        return wrap(x) if level > 2 else tx(ERROR) + O + tx("(") + O + tx(lit_text(x)) + O + tx(")")
    if k == "or":
        return wrap(x) if level > 0 else join([show(e, 1) for e in x["es"]], O + tx("/") + O)
    if k == "and":
        return wrap(x) if level > 1 else join([show(e, 3 if i == 0 and e["k"] == "err" else 2) for i, e in enumerate(x["es"])], S)
    if k == "not":
        return wrap(x) if level > 2 else tx("!") + show(x["e"], 3)
    if k == "rep":
        return wrap(x) if level > 2 else show(x["e"], 3) + tx({(0, -1): "*", (1, -1): "+", (0, 1): "?"}[x["lo"], x["hi"]])
    raise ValueError(k)


def show_items(its):
    out = []
    for i in its:
        if i[0] == "r":
            out += tx(i[1]) + O + tx("=") + O + show(i[2], 0) + E
        else:
            out += tx(i[1]) + O + tx("{") + O + show_items(i[2]) + O + tx("}") + E
    return out


def glue(xs):
    """a line feed just after a carriage return would be part of it"""
    out = ""
    for x in xs:
        out += (" " if out.endswith("\r") and x.startswith("\n") else "") + x
    return out


class Writer:
    def __init__(self, seed, dic):
        self.r = random.Random(seed)
        self.strings = [s for s in dic["strings"] if s]
        self.chars = [chr(c) for c in dic["chars"]]

    # ---- pieces
    def bit(self):
        """something that may need care"""
        r = self.r
        x = r.random()
        if x < 0.65:
            return r.choice(EVIL)
        if x < 0.8:
            return r.choice("abcnrtx0123 ")
        if x < 0.86 and self.strings:
            return r.choice(self.strings)[:12]
        if x < 0.9 and self.chars:
            return r.choice(self.chars)
        c = r.choice([r.randint(0, 0xFF), r.randint(0, 0x2FF), r.randint(0, 0xFFFF), r.randint(0, 0x10FFFF)])
        return chr(c) if not 0xD800 <= c <= 0xDFFF else "q"

    def body(self):
        r = self.r
        return "".join(self.bit() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4]) if r.random() < 0.97 else r.choice([20, 40])))

    def lit(self, k="lit"):
        r = self.r
        s = self.body()
        if r.random() < 0.5:
            return {"k": k, "s": cp(s.replace("'", ""))}
        out, i = "", 0
        while i < len(s):
            if s[i] == '"':
                out += '\\"'
            elif s[i] == "\\":
                if i + 1 < len(s) and s[i + 1] in 'nrt\\"':
                    out += s[i:i + 2]
                    i += 1
                elif i + 1 == len(s):
                    out += "\\\\"
                else:
                    out += s[i]
            elif r.random() < 0.08 and ord(s[i]) < 256:
                out += "\\0x%02X" % ord(s[i])
            else:
                out += s[i]
            i += 1
        return {"k": k, "q": cp(out)}

    def plain_lit(self):
        return {"k": "lit", "s": cp(self.r.choice(["a", "b", "c", "ab", "1", "2", ""]))}

    def klass(self):
        r = self.r
        c = cp((self.body() or "a").replace("]", "")) if r.random() < 0.7 else []
        c = [x for i, x in enumerate(c) if x != 45 or i == 0]
        rs = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if c else r.choice([1, 1, 2, 3])):
            a, b = r.choice([("a", "z"), ("0", "9"), ("A", "Z"), ("a", "a"), ("z", "a"), ("\u00e0", "\u00ff"), (" ", "~"), ("\0", "\U0010FFFF"), ("]", "a"), ("a", "-"),
                             ("[", "]"), ("a", "]"), ("-", "-"), ("\\", "n"), ("\\", "\\"), ("'", '"'), ("/", "*"), ("\n", "\r"), ("!", "-"),
                             (self.bit()[:1] or "a", self.bit()[:1] or "z")])
            if a > b and r.random() < 0.8:
                a, b = b, a
            rs.append([ord(a), ord(b)])
        if c and rs and rs[0][0] == 45:
            rs[0][0] = 97
        return {"k": "match", "c": c, "r": rs}

    def symbol(self):
        r = self.r
        n = r.choice(WORDS)
        x = r.random()
        if x < 0.15:
            n += r.choice(["'", "''", '"', "'\"", "'a", '"1', "'''", "_'", "\"\""])
        elif x < 0.25:
            n += r.choice(["_", "__", "0", "1", "A"]) * r.choice([1, 1, 2])
        elif x < 0.28:
            n *= r.choice([2, 5])
        elif x < 0.3:
            n = n.upper()
        return n

    def cloud(self, n):
        """names that are much like each other"""
        r = self.r
        out = [self.symbol()]
        while len(out) < n:
            b = r.choice(out)
            y = self.symbol()
            v = r.choice([b + "'", b + '"', b + "''", b + "_", "_" + b.strip("."), b + "1", b + "." + y, y + "." + b.strip("."), "." + b.strip("."), b.strip("."), b.swapcase(), b.split(".")[-1],
                          b.split(".")[0] or b, y, b + "." + b.strip("."), b.rstrip("'\"") or b, b[:-1], b + b.strip("."), b.replace(".", "_").strip("_") or "z", y])
            v = v.strip(".") if not v.startswith(".") else "." + v.strip(".")
            if v.strip(".") and all(p and (p[0].isalnum() or p[0] == "_") for p in v.strip(".").split(".")):
                out.append(v)
        return out

    # ---- expressions
    def expr(self, d, names, rich):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.15:
            y = r.random()
            if y < 0.45 and names:
                n = r.choice(names)
                if n != "error":
                    return {"k": "ref", "n": cp(n)}
            if y < 0.6:
                return {"k": "dot"}
            if y < 0.7:
                return self.klass() if rich else {"k": "match", "c": cp("a"), "r": [[48, 57]]}
            if y < 0.78:
                return self.lit("err") if rich else {"k": "err", "s": cp("e")}
            return self.lit() if rich else self.plain_lit()
        if x < 0.35:
            return {"k": "and", "es": [self.expr(d - 1, names, rich) for _ in range(r.choice([2, 2, 3, 4]))]}
        if x < 0.55:
            return {"k": "or", "es": [self.expr(d - 1, names, rich) for _ in range(r.choice([2, 2, 3, 4]))]}
        if x < 0.75:
            lo, hi = r.choice([(0, -1), (1, -1), (0, 1)])
            return {"k": "rep", "e": self.expr(d - 1, names, rich), "lo": lo, "hi": hi}
        if x < 0.88:
            return {"k": "not", "e": self.expr(d - 1, names, rich)}
        return {"k": "par", "e": self.expr(d - 1, names, rich)}

    # ---- layouts
    def comment_text(self):
        r = self.r
        x = r.random()
        if x < 0.25:
            return ""
        if x < 0.7:
            return "".join(self.bit() for _ in range(r.choice([1, 1, 2, 3])))
        return r.choice(["a = 'b'", "x = y\n", "main = 'z'", "'", '"', "[", "]", "(", ")", "*", "/", "//", "}", "{", "=", "* /", "error('", "/*", "\\", "-", "**", "***", "*//",
                         "///", "// a\n", "\n\n", "\r", "a = b\r\nc = d", "\n}\n", "/", "*\n/"])

    def comment(self):
        r = self.r
        t = self.comment_text()
        if r.random() < 0.5:
            return "//" + t.replace("\n", " ").replace("\r", " ") + r.choice(["\n", "\r\n", "\r"])
        while "*/" in t:
            t = t.replace("*/", "")
        if (t + "*/").index("*/") != len(t):
            t = t.rstrip("*")
        return "/*" + t + "*/"

    def blank(self, n):
        r = self.r
        return glue([r.choice([" ", " ", "  ", "\n", "\r", "\r\n", self.comment(), self.comment()]) for _ in range(n)])

    def filler(self, k, mood):
        r = self.r
        if mood == "tight":
            return {"o": "", "s": " ", "e": "\n"}[k]
        if mood == "plain":
            return {"o": r.choice(["", " "]), "s": r.choice([" ", " ", "  ", "\n  "]), "e": r.choice(["\n", "\n\n", " \n"])}[k]
        n = r.choice([0, 0, 1, 1, 2, 3]) if mood == "wild" else r.choice([0, 0, 0, 0, 1])
        if k == "o":
            return self.blank(n)
        if k == "s":
            return glue([r.choice([" ", " ", "\n", "\r", "\r\n"]), self.blank(n)])
        out = [r.choice([" ", " ", self.comment()]) for _ in range(n)]
        return glue(out + [r.choice(["\n", "\n", "\r\n", "\r"]), self.blank(n) if r.random() < 0.5 else ""])

    def lay(self, items, mood):
        ps = O + show_items(items)
        pool, fills, text = [], [], []
        for i, (k, s) in enumerate(ps):
            if k == "t":
                text += s
                continue
            f = cp(self.filler(k, mood))
            if i and ps[i - 1] == ("t", [47]) and f[:1] == [47]:
                f = [32] + f
            if f not in pool:
                pool.append(f)
            fills.append(pool.index(f) + 1)
            text += f
        return pool, fills, text

    # ---- profiles
    def structure(self):
        r = self.r
        names = self.cloud(3) if r.random() < 0.3 else ["a", "b", "c"]
        its = [["r", cp("main"), self.expr(r.choice([1, 2, 3, 3, 4]), names, r.random() < 0.15)]]
        for n in names[:r.choice([0, 0, 1])]:
            its.append(["r", cp(n), self.expr(r.choice([1, 2]), names, False)])
        return its, r.choice(["tight", "plain", "plain", "mild"])

    def long(self):
        """many members, many rules, many groups around one"""
        r = self.r
        short = lambda: r.choice([{"k": "ref", "n": cp(r.choice("abcxyz"))}, {"k": "ref", "n": cp(r.choice("abcxyz"))}, {"k": "dot"}, self.plain_lit()])
        n = r.choice([5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 24, 25, 30, 32, 33, 40, 50, 64, 65, 80, 100])
        mood = r.choice(["tight", "tight", "plain"])
        if r.random() < .25:
            e = short()
            for _ in range(n if n < 17 else n // 4):
                e = r.choice([lambda: {"k": "par", "e": e}, lambda: {"k": "not", "e": e}, lambda: {"k": "rep", "e": e, "lo": r.choice([0, 1]), "hi": -1},
                              lambda: {"k": "and", "es": [e, short()]}, lambda: {"k": "or", "es": [short(), e]}])()
            return [["r", cp("main"), e]], mood
        if r.random() < .2:
            return [["r", cp(r.choice(["r%d" % i, "r%d" % (i // 2), "r"])), short()] for i in range(n if n < 40 else n // 2)], mood
        es = [short() for _ in range(n)]
        for i in {r.choice([0, n - 1, r.randrange(n)]) for _ in range(r.choice([0, 1, 1, 3]))}:
            es[i] = self.expr(r.choice([1, 2]), ["a", "b"], False)
        e = {"k": r.choice(["or", "or", "and"]), "es": es}
        for _ in range(r.choice([0, 0, 1, 2])):
            e = r.choice([lambda: {"k": "par", "e": e}, lambda: {"k": "not", "e": e}, lambda: {"k": "rep", "e": e, "lo": 0, "hi": 1},
                          lambda: {"k": "and", "es": [short(), e]}, lambda: {"k": "or", "es": [e, short()]}])()
        return [["r", cp("main"), e]] + ([["r", cp("a"), short()]] if r.random() < .3 else []), mood

    def literals(self):
        r = self.r
        its = []
        for i in range(r.choice([1, 2, 3, 5])):
            k = r.random()
            one = lambda: self.lit() if r.random() < 0.5 else self.klass() if r.random() < 0.75 else self.lit("err")
            e = one() if k < 0.6 else {"k": r.choice(["and", "or"]), "es": [one() for _ in range(r.choice([2, 3]))]}
            its.append(["r", cp("r%d" % i), e])
        return its, r.choice(["tight", "plain"])

    def layouts(self):
        r = self.r
        its, _ = self.structure() if r.random() < 0.7 else self.modules()
        return its, r.choice(["wild", "wild", "mild"])

    def scope(self, d, names):
        r = self.r
        its = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            if d > 0 and r.random() < 0.4:
                n = r.choice(names).strip(".").split(".")[0] if r.random() < 0.6 else self.symbol()
                its.append(["m", cp(n), self.scope(d - 1, names)])
            else:
                its.append(["r", cp(r.choice(names)), self.expr(r.choice([0, 0, 1]), names, False) if r.random() < 0.5 else self.plain_lit()])
        return its

    def modules(self):
        r = self.r
        names = self.cloud(r.choice([2, 3, 4, 6]))
        return self.scope(r.choice([0, 1, 1, 2, 3, 4]), names), r.choice(["tight", "plain", "plain", "mild", "wild"])

    def case(self, profile, maxlen):
        while True:
            its, mood = getattr(self, profile)()
            pool, fills, text = self.lay(its, mood)
            if len(text) <= maxlen:
                return {"items": its, "pool": pool, "fills": fills, "text": text}


MIX = {"C12": dict(structure=8, layouts=1, modules=.5, long=.6), "C13": dict(literals=9, structure=1), "C14": dict(layouts=1),
       "C15": dict(structure=1, literals=1, layouts=1, modules=1, long=.1), "C16": dict(modules=8, structure=1, long=.2),
       "C17": dict(structure=1, literals=2, modules=1, long=.1), "C18": dict(structure=1, literals=1, layouts=1, modules=1, long=.1)}


def cases(prop, seed, count, dic, maxlen=400):
    w = Writer("%s/%s/written" % (prop, seed), dic)
    mix = MIX[prop]
    out, seen = [], set()
    while len(out) < count:
        p = w.r.choices(list(mix), list(mix.values()))[0]
        c = w.case(p, maxlen)
        t = tuple(c["text"])
        if t in seen:
            continue
        seen.add(t)
        c["id"] = "w:%s-%d" % (p, len(out))
        out.append(c)
    return out
