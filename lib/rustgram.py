"""The Rust that generated code is written in, as a grammar: the macros of the crate,
strings and characters.  spec/RustGrammar.tla is generated from here."""
from meta import many, name, opt, some, tla
from peg import alt, cls, dot, lit, neg, ref, rep, seq

S = ref("_")


def sep(*es):
    out = []
    for i, e in enumerate(es):
        out += ([S] if i else []) + [e]
    return seq(*out)


def listed(e):
    return seq(e, many(sep(seq(S, lit(",")), e)))


def call(nm, *args):
    return sep(lit(nm + "!"), lit("("), *args, lit(")"))


#  what turns the direction of writing has no place in Rust as it is: rustc refuses it
BIDI = neg(cls("", [("\u202a", "\u202e"), ("\u2066", "\u2069")]))
HEX = cls("", [("0", "9"), ("a", "f"), ("A", "F")])
RUST = {
    "main": seq(S, opt(listed(ref("rule"))), S),
    "rule": sep(ref("str"), lit("=>"), ref("expr")),
    "expr": alt(ref("lit"), ref("error"), ref("dot"), ref("ematch"), ref("and"), ref("or"), ref("not"), ref("rep"), ref("ref"), ref("paren")),
    "paren": alt(sep(lit("("), ref("expr"), lit(")")), sep(lit("{"), ref("expr"), lit("}"))),
    "lit": call("lit", ref("str")),
    "error": call("error", ref("str")),
    "dot": call("dot"),
    "ematch": call("ematch", seq(lit("chlist"), ref("_1")), ref("str"), lit(","), alt(ref("from2"), listed(ref("range")))),
    "_1": cls(" \n\t", []),
    "from2": sep(lit("from2"), lit("vec!"), lit("["), opt(listed(ref("pair"))), lit("]")),
    "pair": sep(lit("("), ref("chr"), lit(","), ref("chr"), lit(")")),
    "range": sep(lit("from"), ref("chr"), lit(","), lit("to"), ref("chr")),
    "and": call("and", opt(listed(ref("expr")))),
    "or": call("or", opt(listed(ref("expr")))),
    "not": call("not", ref("expr")),
    "rep": call("rep", ref("expr"), lit(","), ref("count"), opt(sep(lit(","), ref("count")))),
    "ref": call("ref_rule", ref("str")),
    "count": alt(ref("most"), seq(alt(ref("hex"), ref("bin"), ref("dec")), opt(lit("usize")))),
    "most": alt(lit("usize::MAX"), lit("std::usize::MAX"), lit("usize::max_value()")),
    "hex": seq(lit("0x"), HEX, many(alt(HEX, lit("_")))),
    "bin": seq(lit("0b"), cls("01", []), many(cls("01_", []))),
    "dec": seq(cls("", [("0", "9")]), many(cls("_", [("0", "9")]))),
    "num": some(cls("", [("0", "9")])),
    "str": seq(alt(ref("raw1"), ref("raw0"), ref("esc"), ref("from"), ref("refd"), ref("chr"), ref("num")), opt(lit(".to_string()"))),
    "from": sep(lit("String::from"), lit("("), ref("str"), lit(")")),
    "refd": seq(lit("&"), ref("str")),
    "raw1": seq(lit('r#"'), ref("body1"), lit('"#')),
    "body1": many(seq(neg(lit('"#')), neg(lit("\r")), BIDI, dot())),
    "raw0": seq(lit('r"'), ref("body0"), lit('"')),
    "body0": many(seq(neg(lit('"')), neg(lit("\r")), BIDI, dot())),
    "esc": seq(lit('"'), many(alt(ref("escape"), seq(neg(cls("\"\\\r", [])), BIDI, dot()))), lit('"')),
    "chr": seq(lit("'"), alt(ref("escape"), seq(neg(cls("'\\\r\n\t", [])), BIDI, dot())), lit("'")),
    "escape": seq(lit("\\"), alt(ref("simple"), ref("byte"), ref("code"))),
    "simple": cls("nrt0\\'\"", []),
    "byte": seq(lit("x"), cls("", [("0", "7")]), HEX),
    "code": seq(lit("u{"), rep(HEX, 1, 6), lit("}")),
    "_": many(alt(cls(" \n\t", []), ref("line"), ref("block"))),
    "line": seq(lit("//"), many(seq(neg(cls("\n\r", [])), BIDI, dot())), lit("\n")),
    "block": seq(lit("/*"), many(alt(ref("block"), seq(neg(lit("*/")), neg(lit("\r")), BIDI, dot()))), lit("*/")),
}

if __name__ == "__main__":
    print("---------------------------- MODULE RustGrammar ----------------------------")
    print("(* The Rust that generated code is written in.  Generated by lib/rustgram.py. *)")
    print("EXTENDS PegBase\n")
    print("ShownClass(c, r, dbg) == Class(c, r)\n")
    print("RustGrammar ==\n       " + "\n    @@ ".join("%s :> %s" % (name(n), tla(e)) for n, e in RUST.items()))
    print("=============================================================================")
