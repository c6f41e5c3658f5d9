"""The documented grammar of grammars, written again as data.  spec/MetaGrammar.tla is
generated from here (python3 lib/meta.py > spec/MetaGrammar.tla)."""
import sys

from peg import INF, alt, cls, dot, err, lit, neg, ref, rep, seq, walk


def opt(e): return rep(e, 0, 1)
def many(e): return rep(e, 0)
def some(e): return rep(e, 1)


META = {
    "main": ref("grammar"),
    "grammar": some(alt(ref("rule"), ref("module"))),
    "module": seq(ref("_"), ref("mod_name"), ref("_"), lit("{"), ref("_"), ref("grammar"), ref("_"), lit("}"),
                  ref("_eol"), ref("_")),
    "mod_name": ref("symbol"),
    "symbol": seq(cls("_", [("a", "z"), ("A", "Z"), ("0", "9")]),
                  many(cls("_'\"", [("a", "z"), ("A", "Z"), ("0", "9")]))),
    "rule": seq(ref("_"), ref("rule_name"), ref("_"), lit("="), ref("_"), ref("expr"), ref("_eol"), ref("_")),
    "rule_name": seq(opt(lit(".")), ref("symbol"), many(seq(lit("."), ref("symbol")))),
    "expr": ref("or"),
    "or": seq(ref("and"), opt(seq(ref("_"), lit("/"), ref("_"), ref("or")))),
    "error": seq(lit("error"), ref("_"), lit("("), ref("_"), ref("literal"), ref("_"), lit(")")),
    "and": alt(ref("error"),
               seq(ref("rep_or_neg"),
                   many(seq(ref("_1"), ref("_"), neg(seq(ref("rule_name"), ref("_"), alt(lit("="), lit("{")))),
                            ref("and"))))),
    "_1": alt(lit(" "), ref("eol")),
    "rep_or_neg": alt(seq(ref("atom_or_par"), opt(alt(lit("*"), lit("+"), lit("?")))),
                      seq(lit("!"), ref("atom_or_par"))),
    "atom_or_par": alt(ref("atom"), ref("parenth")),
    "parenth": seq(lit("("), ref("_"), ref("expr"), ref("_"),
                   alt(lit(")"), err("unbalanced parethesis: missing ')'"))),
    "atom": alt(ref("literal"), ref("match"), ref("rule_name"), ref("dot")),
    "literal": alt(ref("lit_noesc"), ref("lit_esc")),
    "lit_noesc": seq(ref("_'"), many(seq(neg(ref("_'")), dot())), ref("_'")),
    "_'": lit("'"),
    "lit_esc": seq(ref('_"'), many(alt(ref("esc_char"), ref("hex_char"), seq(neg(ref('_"')), dot()))), ref('_"')),
    '_"': lit('"'),
    "esc_char": alt(lit("\\r"), lit("\\n"), lit("\\t"), lit("\\\\"), lit('\\"')),
    "hex_char": seq(lit("\\0x"), cls("", [("0", "9"), ("A", "F")]), cls("", [("0", "9"), ("A", "F")])),
    "eol": alt(lit("\r\n"), lit("\n"), lit("\r")),
    "_eol": seq(many(alt(lit(" "), ref("comment"))), ref("eol")),
    "match": seq(lit("["), alt(seq(ref("mchars"), many(ref("mbetween"))), some(ref("mbetween"))), lit("]")),
    "mchars": some(seq(neg(lit("]")), neg(seq(dot(), lit("-"))), dot())),
    "mbetween": seq(dot(), lit("-"), dot()),
    "dot": lit("."),
    "_": many(alt(lit(" "), ref("eol"), ref("comment"))),
    "comment": alt(ref("line_comment"), ref("mline_comment")),
    "line_comment": seq(lit("//"), many(seq(neg(ref("eol")), dot())), ref("eol")),
    "mline_comment": seq(lit("/*"), many(seq(neg(lit("*/")), dot())), lit("*/")),
}


def tla_seq(xs):
    return "<< %s >>" % ", ".join(str(x) for x in xs) if xs else "<< >>"


def name(n):
    return '"%s"' % n.replace("\\", "\\\\").replace('"', '\\"')


def tla(e):
    k = e["k"]
    if k == "lit":
        return "Lit(%s)" % tla_seq(e["s"])
    if k == "err":
        return "ErrX(%s)" % tla_seq(e["s"])
    if k == "dot":
        return "Dot"
    if k == "match":
        #  what a failure of the class shows
        dbg = "[%s]" % ", ".join("('%s', '%s')" % (chr(a), chr(b)) for a, b in e["r"])
        return "ShownClass(%s, %s, %s)" % (tla_seq(e["c"]), tla_seq([tla_seq(r) for r in e["r"]]), tla_seq([ord(c) for c in dbg]))
    if k == "ref":
        return "Ref(%s)" % name(e["n"])
    if k == "not":
        return "Not(%s)" % tla(e["e"])
    if k == "rep":
        return "Rep(%s, %d, %s)" % (tla(e["e"]), e["lo"], "INF" if e["hi"] == INF else e["hi"])
    return "%s(<< %s >>)" % ("And" if k == "and" else "Or", ", ".join(tla(x) for x in e["es"]))


if __name__ == "__main__":
    print("---------------------------- MODULE MetaGrammar ----------------------------")
    print("(* The grammar of grammars, as documented.  Generated by lib/meta.py. *)")
    print("EXTENDS PegBase\n")
    print("ShownClass(c, r, dbg) == [k |-> \"match\", c |-> c, r |-> r, dbg |-> dbg]\n")
    rows = []
    for n, e in META.items():
        rows.append("%s :> %s" % (name(n), tla(e)))
    print("MetaGrammar ==\n       " + "\n    @@ ".join(rows))
    print("=============================================================================")
