"""Random rules written with the macros of the crate, in many ways of writing Rust.
What they stand for is decided by the specification."""
import random
import unicodedata

import nearby

HUGE = [1 << 31, (1 << 32) - 1, 1 << 32, 1 << 53, (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1]
SIMPLE = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0", "\\": "\\\\", '"': '\\"', "'": "\\'"}
BITS = ["a", "b", "aa", "A", "0", "9", " ", "", "\"", "'", "\\", "\n", "\r", "\t", "\0", "{}", "{0}", "{{", "}", "\\n", "\\u{41}", "#", "\"#", "//", "/*", "*/", "$e", "$",
        "!", "-", "]", "[", "\u00e9", "\U0001F600", "\u0301", "\u200b", "\u2028", "\x7f", "\x80", "\ufeff", "\u0130", "a-z", "=>", ",", "lit!", "\x1b"]


class Macros:
    def __init__(self, seed, dic):
        self.r = random.Random(seed)
        self.strings = [s for s in dic["strings"] if s]

    def ws(self):
        x = self.r.random()
        if x > .97:
            return self.comment()
        return "" if x < .8 else self.r.choice([" ", "\n", "\t", "  ", " \n "])

    def comment(self):
        r = self.r
        text = r.choice(["", " a, b", " lit!(\"x\")", "'", '"', ")", "\u00e9", " TODO", "(", "=>", "slash", "r#\""])
        return r.choice(["/*%s*/", "/* /* %s */ */", "/*%s\n*/", "//%s\n", " //%s\n ", "/**//* %s */"]) % text

    def count(self, n):
        """a number, in one of the ways to write it"""
        r = self.r
        x = r.random()
        if n == (1 << 64) - 1 and x < .5:
            return r.choice(["usize::MAX", "std::usize::MAX", "usize::max_value()"])
        t = str(n)
        if x < .1:
            t = r.choice(["0x%x", "0x%X", "0x0%x", "0x%x_"]) % n
        elif x < .14 and n < 1 << 20:
            t = bin(n) + r.choice(["", "_"])
        elif x < .2:
            t = format(n, "_d") + r.choice(["", "_", "__"])
        elif x < .25:
            t = r.choice(["0", "00", "0_"]) + t
        return t + (r.choice(["usize"]) if r.random() < .1 else "")

    # ---- characters and strings
    def ch(self, c, quote):
        """one character inside quotes"""
        r = self.r
        if c in "\n\r\t\0\\" or c == quote or (c in SIMPLE and c in "'\"" and r.random() < .3):
            return SIMPLE[c] if r.random() < .85 else "\\u{%x}" % ord(c)
        if ord(c) < 128 and r.random() < .05:
            return "\\x%02x" % ord(c) if r.random() < .5 else "\\x%02X" % ord(c)
        if ord(c) < 32 or unicodedata.category(c)[0] not in "LNPS" and c != " " or r.random() < (.4 if ord(c) > 126 else .03):
            return r.choice(["\\u{%x}", "\\u{%X}", "\\u{%06x}", "\\u{%04x}"]) % ord(c)
        return c

    def quoted(self, s):
        r = self.r
        x = r.random()
        plain = all(32 <= ord(c) < 127 or c == "\n" for c in s)
        if x < .15 and plain and '"' not in s:
            return 'r"%s"' % s
        if x < .35 and plain and '"#' not in s and not s.endswith('"'):
            return 'r#"%s"#' % s
        return '"' + "".join(self.ch(c, '"') for c in s) + '"'

    def chars(self):
        r = self.r
        if r.random() < .1 and self.strings:
            return r.choice(self.strings)[:20]
        if r.random() < .04:
            return r.choice(nearby.longs(r))
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 5])
        out = ""
        for _ in range(n):
            x = r.random()
            out += r.choice(BITS) if x < .85 else chr(r.choice([r.randint(0, 255), r.randint(0, 0xD7FF), r.randint(0xE000, 0x10FFFF)]))
        return out

    def ref_to(self, s):
        """something a &str is wanted of"""
        x = self.r.random()
        q = self.quoted(s)
        return q if x < .85 else "&" + q + ".to_string()" if x < .93 else "&String::from(" + self.ws() + q + ")"

    def owned(self, s):
        """something that can be made a String"""
        x = self.r.random()
        q = self.quoted(s)
        return q if x < .85 else q + ".to_string()" if x < .9 else "String::from(" + q + self.ws() + ")" if x < .95 else "&String::from(" + q + ")"

    def shown(self, s):
        """something that is displayed as s"""
        r = self.r
        if len(s) == 1 and r.random() < .2:
            return "'" + self.ch(s, "'") + "'"
        if s.isascii() and s.isdigit() and len(s) < 9 and str(int(s)) == s and r.random() < .4:
            return s
        return self.owned(s)

    def char(self):
        r = self.r
        c = r.choice(["a", "z", "0", "9", "A", "Z", "'", '"', "\\", "-", "\0", "\n", " ", "\u00e9", "\U0010FFFF", "\ud7ff", "\ue000"]) if r.random() < .85 else chr(r.randint(0, 0xD7FF))
        return "'" + self.ch(c, "'") + "'"

    # ---- expressions
    def call(self, nm, *args):
        w = self.ws
        return nm + "!" + w() + "(" + w() + (w() + "," + self.r.choice([" ", " ", ""]) + w()).join(args) + w() + ")"

    def expr(self, d):
        r = self.r
        e = self.bare(d)
        x = r.random()
        return e if x < .95 else "(" + self.ws() + e + ")" if x < .98 else "{ " + e + self.ws() + "}"

    def bare(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .3:
            k = r.randrange(9)
            if k < 3:
                return self.call("lit", self.shown(self.chars() if r.random() < .8 else r.choice("0123456789") * r.choice([1, 2])))
            if k < 4:
                return self.call("error", self.shown(self.chars()))
            if k < 5:
                return self.call("dot")
            if k < 7:
                return self.klass()
            return self.call("ref_rule", self.owned(r.choice(self.names) if r.random() < .8 else nearby.near(r, r.choice(self.names))))
        if x < .65:
            n = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 6]) if d < 3 else r.choice([1, 2, 2, 3])
            es = [self.expr(d - 1) for _ in range(n)]
            if n > 1 and r.random() < .15:
                es[-1] = es[0]      # the same again
            return self.call(r.choice(["and", "or"]), *es)
        if x < .75:
            return self.call("not", self.expr(d - 1))
        lo = r.choice([0, 0, 0, 1, 1, 2, 3, 9, 10, 255, 256, 1000])
        hi = r.choice([None, None, None, lo, lo, lo + 1, 0, 1, 2, 7, 100, 256, 65535, 65536, 1 << 30, "huge", "huge"])
        if hi == "huge":
            hi = r.choice(HUGE)
            if r.random() < .2:
                lo = r.choice(HUGE)
        return self.call("rep", self.expr(d - 1), self.count(lo), *([] if hi is None else [self.count(hi)]))

    def klass(self):
        r = self.r
        head = "chlist" + r.choice([" ", " ", "  ", "\n"]) + self.ref_to(self.chars())
        n = r.choice([0, 0, 1, 1, 2, 3, 5])
        ps = [(self.char(), self.char()) for _ in range(n)]
        if n > 1 and r.random() < .2:
            ps[-1] = ps[0]
        if r.random() < .4 or n == 0:
            return self.call("ematch", head, "from2" + r.choice([" ", "  "]) + "vec![" + ", ".join("(%s, %s)" % p for p in ps) + "]")
        return self.call("ematch", head, *[x for a, b in ps for x in ("from " + a, "to " + b)])

    def program(self):
        r = self.r
        base = r.choice(["a", "b", "main", "3a", "x.y", "_", "expr", "a'"])
        self.names = nearby.crowd(r, base, r.choice([1, 2, 3, 5])) + ["main"]
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            out.append(self.ref_to(r.choice(self.names)) + " " + self.ws() + "=>" + r.choice([" ", ""]) + self.expr(r.choice([0, 1, 2, 3])))
        return self.ws() + (self.ws() + "," + r.choice(["\n", " ", ""])).join(out) + self.ws()


def cases(seed, n, dic, maxlen):
    out = []
    k = 0
    while len(out) < n:
        k += 1
        g = Macros("%s/%d" % (seed, k), dic)
        t = g.program()
        if len(t) <= maxlen:
            out.append({"id": "r-%d" % k, "code": t})
    return out
