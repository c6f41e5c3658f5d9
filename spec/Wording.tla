------------------------------ MODULE Wording ------------------------------
(* How a failure is described, as code points. *)
EXTENDS PegBase

\* "expected literal: <"
WLit == << 101, 120, 112, 101, 99, 116, 101, 100, 32, 108, 105, 116, 101, 114, 97, 108, 58, 32, 60 >>
\* ">"
WGt == << 62 >>
\* "dot"
WDot == << 100, 111, 116 >>
\* "match. expected "
WMatch == << 109, 97, 116, 99, 104, 46, 32, 101, 120, 112, 101, 99, 116, 101, 100, 32 >>
\* "expected EOF"
WEof == << 101, 120, 112, 101, 99, 116, 101, 100, 32, 69, 79, 70 >>
\* "Missing rule: "
WMissing == << 77, 105, 115, 115, 105, 110, 103, 32, 114, 117, 108, 101, 58, 32 >>
\* "Left recursion in rule: "
WLeftRec == << 76, 101, 102, 116, 32, 114, 101, 99, 117, 114, 115, 105, 111, 110, 32, 105, 110, 32, 114, 117, 108, 101, 58, 32 >>
\* "not"
WNot == << 110, 111, 116 >>
\* "not consumed full input"
WLeftover == << 110, 111, 116, 32, 99, 111, 110, 115, 117, 109, 101, 100, 32, 102, 117, 108, 108, 32, 105, 110, 112, 117, 116 >>
\* "LOGIC ERROR!!! checked all options in or with ¿NO? errors"
WNoChoice == << 76, 79, 71, 73, 67, 32, 69, 82, 82, 79, 82, 33, 33, 33, 32, 99, 104, 101, 99, 107, 101, 100, 32, 97, 108, 108, 32, 111, 112, 116, 105, 111, 110, 115, 32, 105, 110, 32, 111, 114, 32, 119, 105, 116, 104, 32, 191, 78, 79, 63, 32, 101, 114, 114, 111, 114, 115 >>

\* NameCodes(_) gives the code points of a rule name.  What a class failure shows
\* ends with the ranges as the Rust Debug trait prints them, which e.dbg carries.
Words(f, NameCodes(_)) ==
    CASE f.d = "lit"      -> WLit \o f.s \o WGt
      [] f.d = "dot"      -> WDot
      [] f.d = "match"    -> WMatch \o f.s.c \o << 32 >> \o f.s.dbg
      [] f.d = "eof"      -> WEof
      [] f.d = "user"     -> f.s
      [] f.d = "missing"  -> WMissing \o NameCodes(f.s)
      [] f.d = "leftrec"  -> WLeftRec \o NameCodes(f.s)
      [] f.d = "not"      -> WNot
      [] f.d = "leftover" -> WLeftover
      [] f.d = "nochoice" -> WNoChoice
=============================================================================
