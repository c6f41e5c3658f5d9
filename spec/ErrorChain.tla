----------------------------- MODULE ErrorChain -----------------------------
(* The errors of the grammar reader.  An error is a chain: over, the descriptions put on
   it, the outermost first; and base, what it was in the beginning:
     [k |-> "peg", d |-> text]           a description and no more
     [k |-> "parser", e |-> .., dbg |->] an error of the parser
     [k |-> "ast", d |-> text, c |-> context, dbg |->]  an error on trees; the context is
                                          << >> or << text >>
   dbg is how the Debug trait prints it.                                      *)
EXTENDS PegBase

Chain(over, base) == [over |-> over, base |-> base]
Begun(base)  == Chain(<< >>, base)
Pushed(c, d) == Chain(<< d >> \o c.over, c.base)

\* " > ", "Parser(", "AST(", ")"
WThen   == << 32, 62, 32 >>
WParser == << 80, 97, 114, 115, 101, 114, 40 >>
WAst    == << 65, 83, 84, 40 >>
WClose  == << 41 >>
ShownBase(b) == CASE b.k = "peg"    -> b.d
                  [] b.k = "parser" -> WParser \o b.dbg \o WClose
                  [] b.k = "ast"    -> WAst \o b.dbg \o WClose
RECURSIVE Joined(_, _)
Joined(over, last) == IF over = << >> THEN last ELSE over[1] \o WThen \o Joined(Tail(over), last)
Shown(c) == Joined(c.over, ShownBase(c.base))
=============================================================================
