//! The same request with a part of it repeated more and more, on the stack a thread has
//! by default: what came out is summed up, as it is too long to be told
use crate::conv::*;
use crate::json::{n, obj, s, J};
use dynparser::ast::{self, flat};
use dynparser::parser;
use dynparser::parser::atom::Atom;
use dynparser::parser::expression::{Expression, SetOfRules};
use dynparser::{parse, parse_debug, peg, rules_from_peg};

const STACK: usize = 2 << 20;
const SHOWN: usize = 6;

pub fn run(j: &J) -> J {
    let counts = |f: &str| -> Vec<usize> { j.get(f).arr().iter().map(|x| x.num() as usize).collect() };
    let small = |k: usize, dbg: bool| -> J {
        std::thread::scope(|sc| {
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || one(j, k, dbg))
                .unwrap();
            h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
        })
    };
    let mut dbgs = vec![];
    if let J::Arr(v) = j.get("rules") {
        v.iter().for_each(|p| crate::ops::ranges_shown(&p.arr()[1], &mut dbgs));
    }
    obj(vec![
        ("dbgs", J::Arr(dbgs)),
        ("res", J::Arr(counts("at").into_iter().map(|k| small(k, false)).collect())),
        ("dres", J::Arr(counts("dat").into_iter().map(|k| small(k, true)).collect())),
    ])
}

fn one(j: &J, k: usize, dbg: bool) -> J {
    match j.get("what").str() {
        "parse" => {
            let t = pumped(j, k);
            let r = rules(&grown(j.get("rules"), k));
            res(&if dbg { parse_debug(&t, &r) } else { parse(&t, &r) })
        }
        "peg" => match rules_from_peg(&pumped(j, k)) {
            Ok(r) => read(&r),
            Err(peg::Error::Parser(e)) => err(&e),
            Err(_) => obj(vec![("k", s("refused"))]),
        },
        //  only how much code that is
        "code" => match rules_from_peg(&pumped(j, k)) {
            Ok(r) => sum("ok", vec![peg::gcode::rust_from_rules(&r).chars().count()], vec![]),
            Err(_) => obj(vec![("k", s("refused"))]),
        },
        "ast" => {
            let mut c = nodes(j.get("pre"));
            for _ in 0..k {
                c.extend(nodes(j.get("unit")));
            }
            c.extend(nodes(j.get("post")));
            let t = ast::Node::Rule((text(j.get("root")), c));
            let nm: Vec<String> = j.get("names").arr().iter().map(text).collect();
            let nm: Vec<&str> = nm.iter().map(|x| x.as_str()).collect();
            match j.get("f").str() {
                "prune" => tree(&t.prune(&nm)),
                "pass" => tree(&t.pass_through_except(&nm)),
                "compact" => tree(&t.compact()),
                "flatten" => list(&t.flatten()),
                f => panic!("unknown ast function {}", f),
            }
        }
        w => panic!("unknown pump {}", w),
    }
}

fn pumped(j: &J, k: usize) -> String {
    let mut t = text(j.get("pre"));
    t.push_str(&text(j.get("unit")).repeat(k));
    t.push_str(&text(j.get("post")));
    t
}

//  a literal marked to grow is that many times itself; bounds marked to grow are that many times
//  themselves
fn grows(j: &J) -> bool {
    *j.get("grow") == J::Bool(true)
}
fn grown(j: &J, k: usize) -> J {
    match j {
        J::Arr(v) => J::Arr(v.iter().map(|x| grown(x, k)).collect()),
        J::Obj(_) if grows(j) && j.get("k").str() == "lit" => {
            let one = j.get("s").arr();
            let mut all = vec![];
            for _ in 0..k {
                all.extend(one.iter().map(|c| J::Num(c.num())));
            }
            obj(vec![("k", s("lit")), ("s", J::Arr(all))])
        }
        J::Obj(_) if grows(j) => {
            let by = |f: &str| match j.get(f).num() {
                x if x < 0 => J::Num(x),
                x => J::Num(x * k as i64),
            };
            obj(vec![("k", s("rep")), ("e", grown(j.get("e"), k)), ("lo", by("lo")), ("hi", by("hi"))])
        }
        J::Obj(v) => J::Obj(v.iter().map(|(f, x)| (f.clone(), grown(x, k))).collect()),
        _ => j.clone(),
    }
}

//  the first and the last of a list
fn ends<T, F: Fn(&T) -> J>(v: &[T], f: F) -> J {
    let head = v.iter().take(SHOWN).map(&f).collect();
    let tail = v[v.len() - v.len().min(SHOWN)..].iter().map(&f).collect();
    J::Arr(vec![J::Arr(head), J::Arr(tail)])
}
fn chars(t: &str) -> Vec<char> {
    t.chars().collect()
}
fn ends_of(t: &str) -> J {
    ends(&chars(t), |c| n(*c as usize))
}
fn sum(k: &str, v: Vec<usize>, x: Vec<J>) -> J {
    obj(vec![("k", s(k)), ("v", J::Arr(v.into_iter().map(n).collect())), ("x", J::Arr(x))])
}

fn res(r: &Result<ast::Node, parser::Error>) -> J {
    match r {
        Ok(a) => tree(a),
        Err(e) => err(e),
    }
}

fn err(e: &parser::Error) -> J {
    let len = |t: &str| t.chars().count();
    let walk: Vec<String> = e
        .parsing_rules
        .iter()
        .map(|x| if x.starts_with("r:") { x[2..].to_string() } else { x.clone() })
        .collect();
    sum(
        "err",
        vec![e.pos.n, e.pos.row, e.pos.col, e.pos.start_line, len(&e.line_before), len(&e.line_after), len(&e.descr), walk.len()],
        vec![
            ends_of(&e.line_before),
            ends_of(&e.line_after),
            ends_of(&e.descr),
            s(if e.priority == parser::ErrPriority::Critical { "critical" } else { "normal" }),
            ends(&walk, |x| s(x)),
        ],
    )
}

fn tree(a: &ast::Node) -> J {
    let toks = jtokens(a);
    toks_sum(toks.arr())
}
fn list(v: &[flat::Node]) -> J {
    let t: Vec<J> = v.iter().map(jfnode).collect();
    toks_sum(&t)
}
fn toks_sum(ts: &[J]) -> J {
    let of = |k: &str| ts.iter().filter(|t| t.get("t").str() == k).count();
    let ch = ts.iter().map(|t| if t.get("t").str() == "v" { t.get("s").arr().len() } else { 0 }).sum();
    sum("ok", vec![of("v"), of("b"), of("x"), of("e"), ch], vec![ends(ts, |t| short(t))])
}
//  of a token: a value by the first and the last of its characters
fn short(t: &J) -> J {
    match t.get("t").str() {
        "v" => {
            let c = t.get("s").arr();
            let num = |x: &J| J::Num(x.num());
            obj(vec![("t", s("v")), ("s", ends(c, num))])
        }
        "e" => obj(vec![("t", s("e"))]),
        k => obj(vec![("t", s(k)), ("n", s(t.get("n").str()))]),
    }
}

//  rules, expressions, characters of literals, of classes, ranges, characters of names
fn read(r: &SetOfRules) -> J {
    fn go(e: &Expression, v: &mut Vec<usize>) {
        v[1] += 1;
        match e {
            Expression::Simple(Atom::Literal(l)) | Expression::Simple(Atom::Error(l)) => v[2] += l.chars().count(),
            Expression::Simple(Atom::Match(m)) => {
                v[3] += m.chars().chars().count();
                v[4] += m.ranges().len();
            }
            Expression::Simple(_) => (),
            Expression::And(m) | Expression::Or(m) => m.0.iter().for_each(|x| go(x, v)),
            Expression::Not(x) => go(x, v),
            Expression::Repeat(x) => go(&x.expression, v),
            Expression::RuleName(x) => v[5] += x.chars().count(),
        }
    }
    let mut v = vec![r.0.len(), 0, 0, 0, 0, 0];
    for (nm, e) in &r.0 {
        v[5] += nm.chars().count();
        go(e, &mut v);
    }
    sum("rules", v, vec![])
}
