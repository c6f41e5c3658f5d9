"""Constants written in the sources under test.  They only bias what is generated:
code that treats some value specially usually names it."""
import glob
import os
import re


def mine(repo):
    chars, strings, ints = set(), set(), set()
    for p in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        if os.path.basename(p) == "test.rs" or p.endswith("peg/rules.rs"):
            continue
        try:
            t = open(p, encoding="utf-8").read()
        except OSError:
            continue
        t = re.sub(r"(?m)^\s*//.*$", "", t)
        for m in re.finditer(r"b?'(\\u\{([0-9a-fA-F_]+)\}|\\x([0-9a-fA-F]{2})|\\(.)|([^\\'\n]))'", t):
            if m.group(2):
                c = int(m.group(2).replace("_", ""), 16)
            elif m.group(3):
                c = int(m.group(3), 16)
            elif m.group(4):
                c = ord({"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(m.group(4), m.group(4)))
            else:
                c = ord(m.group(5))
            if c < 0x110000 and not 0xD800 <= c <= 0xDFFF:
                chars.add(c)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,24})"', t):
            s = m.group(1)
            if "{" in s and "}" in s:
                continue
            try:
                s = s.encode("latin1", "backslashreplace").decode("unicode_escape")
            except Exception:
                continue
            if all(not 0xD800 <= ord(c) <= 0xDFFF for c in s):
                strings.add(s)
        for m in re.finditer(r"(?<![\w.'])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:_?(?:usize|u8|u16|u32|u64|i32|i64))?\b", t):
            try:
                n = int(m.group(1).replace("_", ""), 0)
            except ValueError:
                continue
            ints.add(n)
            if m.group(1).startswith("0x") and 0 < n < 0x110000 and not 0xD800 <= n <= 0xDFFF:
                chars.add(n)
    return {"chars": sorted(chars), "strings": sorted(strings), "ints": sorted(i for i in ints if i <= 100000)}
