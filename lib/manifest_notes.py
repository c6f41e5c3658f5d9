MC = "TLA+ specification checked with TLC"
TECH, NOTE = {}, {}


def note(props, tech, text):
    for p in props.split():
        TECH[p] = MC + "; " + tech
        NOTE[p] = text


note("C12 C13 C14 C15 C16", "the texts it writes read by the code; recorded readings validated against it",
     "TLC checks over a family of small grammars and layouts that the parser machine with the documented grammar of grammars, then the reading "
     "of its tree, gives back what was written. Every text is replayed on the code; thousands of random texts, grammars written in many layouts from a shape the specification reads on its own, and texts grown by pumping "
     "one place of a witness are read by the code and validated against the specification. Bounded: other texts are sampled. Trusts TLC, the harness and the transcription of the grammar of grammars.")
note("C10", "its histories replayed on rule sets of the code; recorded histories validated as behaviours of it",
     "TLC checks every history of a few creations, additions and merges of rule sets held in registers against maps, and prints them to be replayed "
     "on the code; thousands of longer random histories, with parses in between, are validated as behaviours. Bounded: longer histories are sampled.")
note("C11", "recorded repetitions, orders and threads validated as behaviours of a memo",
     "TLC checks every interleaving of two parser machines doing jobs on shared and own rule sets against the meaning of each job. Parses of the code "
     "repeated in any order, with rules registered otherwise, rules nobody needs, from eight threads and another process are validated as behaviours of a memo. "
     "Threads are scheduled by the system, not enumerated; a parser that cannot be shared between threads is a violation.")
note("C17", "generated code compiled, and what it builds validated against the specification",
     "TLC checks over families of rule sets that the Rust written for them, read with the grammar of that Rust, builds the same rules, round after round. "
     "The code generated by the crate for those and for random grammars is compiled and run, and TLC compares what it builds with what it was generated for; "
     "the rest is read by the specification. Bounded: rule sets are sampled; only rule sets that come from grammar text.")
note("C25", "its programs compiled, and what they build validated against it",
     "TLC checks over families of small programs that what is read of them is the rules written, the set growing rule by rule. A sample of those programs and hundreds "
     "of random ones, written in many ways, are compiled with the crate and run, and TLC reads each and compares the rules it made. Bounded: programs are sampled; arguments are literals and strings made of them.")
note("C18", "what the crate prints is compiled, installed and run, and the readings before and after are validated to be the same",
     "TLC checks that the documented grammar of grammars reads its own text as itself, again after being written as Rust, compiled and installed. What the crate "
     "prints is installed in a copy of it, and both read the same thousands of texts and print again; TLC checks that they give the same. Bounded: texts are sampled.")
note("C19 C20 C21 C22", "its transformations replayed on the code; recorded transformations validated against it",
     "TLC checks the transformation over every tree of a family, alone and in pipelines, against what is said of it without recursion over the tree (paths, leaves, "
     "runs, marks). Each result is replayed on the code, and thousands of random trees, small and grown by repeating one part, transformed by the code are validated. Bounded: other trees are sampled.")
note("C23 C24", "its steps and walks replayed on the code; recorded walks validated as behaviours of it",
     "TLC checks a walker that asks for one node at a time over every list of a family: each step consumes the one node asked for or nothing. Every step is replayed "
     "on the code and thousands of random walks recorded from it are validated as behaviours. Bounded: other lists are sampled.")
note("C26", "its histories replayed on errors of the code; recorded histories validated as behaviours of it",
     "TLC checks every history of up to a few descriptions put on errors of every kind: nothing is lost, nothing under is touched, and what is printed extends what was printed before. "
     "Each is replayed on the code, and thousands of longer random ones, also on errors of texts that are refused, are validated as behaviours. Bounded: other histories are sampled. "
     "How the Debug trait shows the error at the bottom is taken as it is.")
