"""Strings easily taken for one another."""
import unicodedata

SPACE = [" ", "\t", "\n", "\r\n", "\u00a0", "\u3000", "\u200b", "\ufeff", "\0", "\x0b", "\x85"]
EDGE = [".", "'", '"', "_", "0", "-", ":", "/", "*", "!", "(", ")", "\\", "x", "s", "1", "a", "A", "\u0301", "\u00e9", "''", "..", "::", "@", "#", "$", "\U0001F600"]


def ok(s):
    return all(not 0xD800 <= ord(c) <= 0xDFFF for c in s)


def move(rng, s, d):
    """one character, d further"""
    if not s:
        return chr(abs(d))
    i = rng.choice([0, len(s) - 1, rng.randrange(len(s))])
    c = (ord(s[i]) + d) % 0x110000
    return s[:i] + chr(c) + s[i + 1:]


def near(rng, s):
    e = rng.choice(SPACE + EDGE)
    k = rng.randrange(30)
    out = [lambda: s + e, lambda: e + s, lambda: e + s + e, lambda: s.strip(), lambda: s.strip(e), lambda: s.strip("." + "'\"_ "), lambda: s[:-1], lambda: s[1:],
           lambda: s.upper(), lambda: s.lower(), lambda: s.swapcase(), lambda: s.title(), lambda: s[::-1], lambda: s + s, lambda: s[:len(s) // 2],
           lambda: s.split(".")[-1], lambda: s.split(".")[0], lambda: s + "." + s, lambda: move(rng, s, 1), lambda: move(rng, s, rng.choice([256, 0x10000, 128, -1, 32])),
           lambda: unicodedata.normalize("NFD", s), lambda: unicodedata.normalize("NFC", s + "\u0301"), lambda: "".join(sorted(s)), lambda: s.replace(" ", ""), lambda: s.replace("\r\n", "\n"),
           lambda: s.replace("\n", "\\n"), lambda: "", lambda: s.casefold(), lambda: s[:1], lambda: s.replace("a", "b", 1)][k]()
    return out if ok(out) else s + "x"


def crowd(rng, base, n):
    out = [base]
    while len(out) < n:
        out.append(near(rng, rng.choice(out))[:300])
    return out


def longs(rng, a="a"):
    """long, and the same but for one character"""
    n = rng.choice([7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300])
    s = a * n
    i = rng.choice([0, n // 2, n - 1])
    return s, rng.choice([s[:i] + "b" + s[i + 1:], s + a, s[:-1], s + "b"])
