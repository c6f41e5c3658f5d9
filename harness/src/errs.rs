//! Errors of the grammar reader: made, given descriptions, and looked at
use crate::conv::*;
use crate::json::{codes, obj, s, J};
use dynparser::parser::{self, ErrPriority, Possition};
use dynparser::peg::Error;
use dynparser::{ast, rules_from_peg};

fn texts(v: &[String]) -> J {
    J::Arr(v.iter().map(|x| codes(x)).collect())
}

fn parser_error(j: &J) -> parser::Error {
    let num = |k| j.get(k).num() as usize;
    parser::Error {
        pos: Possition { n: num("n"), row: num("row"), col: num("col"), start_line: num("sl") },
        descr: text(j.get("d")),
        line_before: text(j.get("lb")),
        line_after: text(j.get("la")),
        parsing_rules: j.get("walk").arr().iter().map(|x| x.str().to_string()).collect(),
        priority: if j.get("prio").str() == "critical" { ErrPriority::Critical } else { ErrPriority::Normal },
    }
}

//  an error, and how the Debug trait shows what it is made of
fn begin(b: &J) -> Option<(Error, String)> {
    Some(match b.get("k").str() {
        "peg" => (Error::Peg((text(b.get("d")), None)), String::new()),
        "parser" => {
            let e = parser_error(b.get("e"));
            let dbg = format!("{:?}", e);
            (e.into(), dbg)
        }
        "ast" => {
            let c = b.get("c").arr();
            let c = if c.is_empty() { None } else { Some(text(&c[0])) };
            let e = ast::error(&text(b.get("d")), c.as_ref().map(|x| &x[..]));
            let dbg = format!("{:?}", e);
            (e.into(), dbg)
        }
        //  of a grammar text that is refused
        "read" => match rules_from_peg(&text(b.get("text"))) {
            Ok(_) => return None,
            Err(e) => {
                let dbg = match &e {
                    Error::Parser(p) => format!("{:?}", p),
                    Error::Ast(a) => format!("{:?}", a),
                    Error::Peg(_) => String::new(),
                };
                (e, dbg)
            }
        },
        k => panic!("unknown error {}", k),
    })
}

fn shown(e: &Error, dbg: &str) -> J {
    let mut over = vec![];
    let mut at = e;
    while let Error::Peg((d, Some(inner))) = at {
        over.push(d.clone());
        at = inner;
    }
    let base = match at {
        Error::Peg((d, _)) => obj(vec![("k", s("peg")), ("d", codes(d))]),
        Error::Parser(p) => obj(vec![("k", s("parser")), ("e", jerr(p)), ("dbg", codes(dbg))]),
        Error::Ast(a) => obj(vec![
            ("k", s("ast")),
            ("d", codes(&a.0)),
            ("c", texts(&a.1.iter().cloned().collect::<Vec<_>>())),
            ("dbg", codes(dbg)),
        ]),
    };
    obj(vec![("over", texts(&over)), ("base", base), ("print", codes(&e.to_string()))])
}

//  {"base": .., "steps": [{"a": "push" | "wrap", "d": text}..]}
pub fn run(j: &J) -> J {
    let (mut e, dbg) = match begin(j.get("base")) {
        Some(x) => x,
        None => return obj(vec![("begun", J::Null), ("steps", J::Arr(vec![]))]),
    };
    let begun = shown(&e, &dbg);
    let mut steps = vec![];
    for st in j.get("steps").arr() {
        let d = text(st.get("d"));
        e = match st.get("a").str() {
            "push" => e.ipush(&d),
            "wrap" => Error::Peg((d, Some(Box::new(e)))),
            a => panic!("unknown step {}", a),
        };
        steps.push(shown(&e, &dbg));
    }
    obj(vec![("begun", begun), ("steps", J::Arr(steps))])
}
