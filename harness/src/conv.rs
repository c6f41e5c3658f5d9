//! Between the driver's JSON and the crate's values
use crate::json::{codes, n, obj, s, J};
use dynparser::ast;
use dynparser::ast::flat;
use dynparser::parser;
use dynparser::parser::atom::Atom;
use dynparser::parser::expression::{Expression, MultiExpr, SetOfRules};
use std::collections::HashMap;

pub fn text(j: &J) -> String {
    match j {
        J::Str(x) => x.clone(),
        J::Arr(v) => v
            .iter()
            .map(|c| std::char::from_u32(c.num() as u32).expect("char"))
            .collect(),
        _ => panic!("text expected"),
    }
}
fn ch(j: &J) -> char {
    std::char::from_u32(j.num() as u32).expect("char")
}

//  the macros are part of the API, so they are used here wherever they can be
pub fn expr(j: &J) -> Expression {
    match j.get("k").str() {
        "lit" => lit!(text(j.get("s"))),
        "err" => error!(text(j.get("s"))),
        "dot" => dot!(),
        "eof" => Expression::Simple(Atom::EOF),
        "match" => {
            let c = text(j.get("c"));
            let r: Vec<(char, char)> = j
                .get("r")
                .arr()
                .iter()
                .map(|p| (ch(&p.arr()[0]), ch(&p.arr()[1])))
                .collect();
            match r.len() {
                1 => ematch!(chlist & c, from r[0].0, to r[0].1),
                2 => ematch!(chlist & c, from r[0].0, to r[0].1, from r[1].0, to r[1].1),
                _ => ematch!(chlist & c, from2 r),
            }
        }
        "ref" => ref_rule!(text(j.get("n"))),
        "not" => not!(expr(j.get("e"))),
        "rep" => {
            let lo = count(j.get("lo").num());
            let hi = j.get("hi").num();
            if hi < 0 {
                rep!(expr(j.get("e")), lo)
            } else {
                rep!(expr(j.get("e")), lo, count(hi))
            }
        }
        "and" => {
            let mut v: Vec<Expression> = j.get("es").arr().iter().map(expr).collect();
            if v.len() == 2 {
                let b = v.pop().unwrap();
                let a = v.pop().unwrap();
                and!(a, b)
            } else {
                Expression::And(MultiExpr::new(v))
            }
        }
        "or" => {
            let mut v: Vec<Expression> = j.get("es").arr().iter().map(expr).collect();
            if v.len() == 2 {
                let b = v.pop().unwrap();
                let a = v.pop().unwrap();
                or!(a, b)
            } else {
                Expression::Or(MultiExpr::new(v))
            }
        }
        k => panic!("unknown expression {}", k),
    }
}

//  [[name, expr]..]
pub fn rules(j: &J) -> SetOfRules {
    j.arr().iter().fold(
        SetOfRules::new(HashMap::new()),
        |r, p| r.add(&text(&p.arr()[0]), expr(&p.arr()[1])),
    )
}

//  counts beyond what the specification counts to, by numbers that stand for them (lib/peg.py)
const HUGE: [u128; 8] = [
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    1 << 53,
    (1 << 63) - 1,
    1 << 63,
    (1 << 64) - 2,
    (1 << 64) - 1,
];
const FIRST: u128 = 2_147_483_640;

fn count(x: i64) -> usize {
    let x = x as u128;
    (if x < FIRST { x } else { HUGE[(x - FIRST) as usize] }) as usize
}

fn nrep(x: &impl std::fmt::Display) -> J {
    let x: u128 = x.to_string().parse().expect("NRep");
    let x = match HUGE.iter().position(|h| *h == x) {
        Some(i) => FIRST + i as u128,
        None => x.min(FIRST - 1),
    };
    J::Num(x as i64)
}

pub fn jexpr(e: &Expression) -> J {
    let k = |k: &str, mut v: Vec<(&str, J)>| {
        v.insert(0, ("k", s(k)));
        obj(v)
    };
    match e {
        Expression::Simple(Atom::Literal(l)) => k("lit", vec![("s", codes(l))]),
        Expression::Simple(Atom::Error(l)) => k("err", vec![("s", codes(l))]),
        Expression::Simple(Atom::Dot) => k("dot", vec![]),
        Expression::Simple(Atom::EOF) => k("eof", vec![]),
        Expression::Simple(Atom::Match(m)) => k(
            "match",
            vec![
                ("c", codes(m.chars())),
                (
                    "r",
                    J::Arr(
                        m.ranges()
                            .iter()
                            .map(|(f, t)| J::Arr(vec![n(*f as usize), n(*t as usize)]))
                            .collect(),
                    ),
                ),
            ],
        ),
        Expression::And(v) => k("and", vec![("es", J::Arr(v.0.iter().map(jexpr).collect()))]),
        Expression::Or(v) => k("or", vec![("es", J::Arr(v.0.iter().map(jexpr).collect()))]),
        Expression::Not(e) => k("not", vec![("e", jexpr(e))]),
        Expression::Repeat(r) => k(
            "rep",
            vec![
                ("e", jexpr(&r.expression)),
                ("lo", nrep(&r.min)),
                ("hi", r.max.as_ref().map_or(J::Num(-1), nrep)),
            ],
        ),
        Expression::RuleName(r) => k("ref", vec![("n", codes(r))]),
    }
}

//  [[name codes, expr]..] in no particular order
pub fn jrules(r: &SetOfRules) -> J {
    J::Arr(r.0.iter().map(|(nm, e)| J::Arr(vec![codes(nm), jexpr(e)])).collect())
}

//  rule names in trees travel as strings or as codes
pub fn node(j: &J) -> ast::Node {
    match j.get("t").str() {
        "v" => ast::Node::Val(text(j.get("s"))),
        "e" => ast::Node::EOF,
        "r" => ast::Node::Rule((text(j.get("n")), nodes(j.get("c")))),
        t => panic!("unknown node {}", t),
    }
}
pub fn nodes(j: &J) -> Vec<ast::Node> {
    j.arr().iter().map(node).collect()
}
pub fn jnode(x: &ast::Node) -> J {
    match x {
        ast::Node::Val(v) => obj(vec![("t", s("v")), ("s", codes(v))]),
        ast::Node::EOF => obj(vec![("t", s("e"))]),
        ast::Node::Rule((nm, c)) => obj(vec![("t", s("r")), ("n", s(nm)), ("c", jnodes(c))]),
    }
}
//  in document order, as trees may be deeper than readers of JSON like
pub fn jtokens(x: &ast::Node) -> J {
    fn go(x: &ast::Node, out: &mut Vec<J>) {
        match x {
            ast::Node::Rule((nm, c)) => {
                out.push(obj(vec![("t", s("b")), ("n", s(nm))]));
                c.iter().for_each(|y| go(y, out));
                out.push(obj(vec![("t", s("x")), ("n", s(nm))]));
            }
            _ => out.push(jnode(x)),
        }
    }
    let mut v = vec![];
    go(x, &mut v);
    J::Arr(v)
}
pub fn jnodes(v: &[ast::Node]) -> J {
    J::Arr(v.iter().map(jnode).collect())
}

pub fn fnode(j: &J) -> flat::Node {
    match j.get("t").str() {
        "v" => flat::Node::Val(text(j.get("s"))),
        "e" => flat::Node::EOF,
        "b" => flat::Node::BeginRule(text(j.get("n"))),
        "x" => flat::Node::EndRule(text(j.get("n"))),
        t => panic!("unknown flat node {}", t),
    }
}
pub fn jfnode(x: &flat::Node) -> J {
    match x {
        flat::Node::Val(v) => obj(vec![("t", s("v")), ("s", codes(v))]),
        flat::Node::EOF => obj(vec![("t", s("e"))]),
        flat::Node::BeginRule(nm) => obj(vec![("t", s("b")), ("n", s(nm))]),
        flat::Node::EndRule(nm) => obj(vec![("t", s("x")), ("n", s(nm))]),
    }
}
pub fn jfnodes(v: &[flat::Node]) -> J {
    J::Arr(v.iter().map(jfnode).collect())
}

pub fn jerr(e: &parser::Error) -> J {
    obj(vec![
        ("k", s("err")),
        ("n", n(e.pos.n)),
        ("row", n(e.pos.row)),
        ("col", n(e.pos.col)),
        ("sl", n(e.pos.start_line)),
        ("d", codes(&e.descr)),
        ("lb", codes(&e.line_before)),
        ("la", codes(&e.line_after)),
        ("prio", s(if e.priority == parser::ErrPriority::Critical { "critical" } else { "normal" })),
        (
            "walk",
            J::Arr(e.parsing_rules.iter().map(|r| s(r)).collect()),
        ),
    ])
}

pub fn jres(r: &Result<ast::Node, parser::Error>) -> J {
    match r {
        Ok(a) => obj(vec![("k", s("ok")), ("ast", jtokens(a))]),
        Err(e) => jerr(e),
    }
}
