"""The documented text of the grammar of grammars (lib/self.peg, as the documentation shows
it).  spec/SelfText.tla is generated from here: python3 lib/selftext.py > spec/SelfText.tla"""
import os

from meta import META, name

TEXT = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "self.peg"), encoding="utf-8", newline="").read()

if __name__ == "__main__":
    print("------------------------------ MODULE SelfText ------------------------------")
    print("(* The grammar of grammars as a grammar text.  Generated by lib/selftext.py. *)")
    lines = TEXT.splitlines(True)
    rows = ["<< %s >>" % ", ".join(str(ord(c)) for c in l) for l in lines]
    print("LOCAL INSTANCE Sequences")
    print("Lines == <<\n  " + ",\n  ".join(rows) + " >>")
    print("LOCAL INSTANCE Naturals")
    print("RECURSIVE Joined(_, _)")
    print("Joined(a, b) == IF a > b THEN << >> ELSE IF a = b THEN Lines[a] ELSE LET h == (a + b) \\div 2 IN Joined(a, h) \\o Joined(h + 1, b)")
    print("SelfText == Joined(1, Len(Lines))")
    print("\\* the names of its rules, as they are written")
    print("NameCodes(x) ==")
    for i, n in enumerate(META):
        print("    %s x = %s -> << %s >>" % ("CASE" if i == 0 else "  []", name(n), ", ".join(str(ord(c)) for c in n)))
    print("=============================================================================")
