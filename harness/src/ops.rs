//! One function per kind of request.  Each answers with what the code did;
//! judging it is somebody else's work
use crate::conv::*;
use crate::json::{codes, n, obj, s, J};
use dynparser::ast::{self, flat};
use dynparser::parser::expression::SetOfRules;
use dynparser::{parse, parse_debug, peg, rules_from_peg};
use std::collections::HashMap;

pub fn run(j: &J) -> J {
    match j.get("op").str() {
        "parse" => {
            let r = rules(j.get("rules"));
            let t = text(j.get("text"));
            let mut dbgs = vec![];
            for p in j.get("rules").arr() {
                ranges_shown(&p.arr()[1], &mut dbgs);
            }
            obj(vec![
                ("res", jres(&parse(&t, &r))),
                ("dres", jres(&parse_debug(&t, &r))),
                ("dbgs", J::Arr(dbgs)),
            ])
        }
        "peg" => obj(vec![("res", read_peg(&text(j.get("text"))))]),
        "gcode" => gcode(j),
        //  a grammar text parsed with a grammar of grammars
        "gparse" => obj(vec![(
            "res",
            match parse(&text(j.get("text")), &rules(j.get("rules"))) {
                Ok(_) => obj(vec![("k", s("accepted"))]),
                e => jres(&e),
            },
        )]),
        "ast" => ast_op(j),
        "tree" => tree_helper(j),
        "flat" => flat_helper(j),
        "hist" => history(j),
        "errs" => crate::errs::run(j),
        "pump" => crate::pump::run(j),
        "pure" => crate::pure::run(j),
        op => panic!("unknown op {}", op),
    }
}

pub fn read_peg(t: &str) -> J {
    match rules_from_peg(t) {
        Ok(r) => obj(vec![("k", s("rules")), ("rules", jrules(&r))]),
        Err(peg::Error::Parser(e)) => jerr(&e),
        Err(e) => obj(vec![("k", s("refused")), ("d", s(&format!("{}", e)))]),
    }
}

//  the ranges of every class, as Debug prints them
pub fn ranges_shown(j: &J, out: &mut Vec<J>) {
    if j.get("k").str() == "match" {
        let r: Vec<(char, char)> = j
            .get("r")
            .arr()
            .iter()
            .map(|p| {
                let t: Vec<char> = text(p).chars().collect();
                (t[0], t[1])
            })
            .collect();
        out.push(codes(&format!("{:?}", r)));
    }
    if let J::Arr(v) = j.get("es") {
        v.iter().for_each(|x| ranges_shown(x, out));
    }
    if let e @ J::Obj(_) = j.get("e") {
        ranges_shown(e, out);
    }
}

fn gcode(j: &J) -> J {
    let r = match j.get("text") {
        J::Null => rules(j.get("rules")),
        t => match rules_from_peg(&text(t)) {
            Ok(r) => r,
            Err(e) => return obj(vec![("k", s("refused")), ("d", s(&format!("{}", e)))]),
        },
    };
    obj(vec![
        ("k", s("code")),
        ("rules", jrules(&r)),
        ("code", s(&peg::gcode::rust_from_rules(&r))),
    ])
}

fn names(j: &J) -> Vec<String> {
    j.arr().iter().map(text).collect()
}

//  steps applied one after the other to what the code gave, not to a copy of it.  Each tells
//  what it gave and what the tree it was applied to is afterwards
fn ast_op(j: &J) -> J {
    let mut t = node(j.get("tree"));
    let mut out = vec![];
    for st in j.get("steps").arr() {
        let nm = names(st.get("names"));
        let nm: Vec<&str> = nm.iter().map(|x| x.as_str()).collect();
        let next = match st.get("f").str() {
            "prune" => t.prune(&nm),
            "pass" => t.pass_through_except(&nm),
            "compact" => t.compact(),
            "flatten" => {
                out.push(obj(vec![("r", jfnodes(&t.flatten())), ("after", jnode(&t))]));
                continue;
            }
            f => panic!("unknown ast function {}", f),
        };
        out.push(obj(vec![("r", jnode(&next)), ("after", jnode(&t))]));
        t = next;
    }
    obj(vec![("steps", J::Arr(out))])
}

fn no() -> J {
    obj(vec![("ok", J::Bool(false))])
}
//  got: what was returned, as codes, nodes or a name; rest: the remaining nodes
fn yes(got: J, rest: J) -> J {
    obj(vec![("ok", J::Bool(true)), ("got", got), ("rest", rest)])
}

//  a walk over a list: every helper is applied to what the one before left
fn tree_helper(j: &J) -> J {
    let v = nodes(j.get("nodes"));
    let mut cur: &[ast::Node] = &v;
    let mut out = vec![];
    for st in j.get("steps").arr() {
        let a = text(st.get("a"));
        let mut within = None;
        let one = match st.get("op").str() {
            "consume_val" => ast::consume_val(cur).map(|(x, r)| (codes(x), r)),
            "consume_this_value" => ast::consume_this_value(&a, cur).map(|r| (J::Arr(vec![]), r)),
            "consume_rule" => ast::consume_node_get_subnodes_for_rule_name_is(&a, cur).map(|(r, sub)| {
                within = Some(sub);
                (jnodes(sub), r)
            }),
            "split_first" => ast::split_first_nodes(cur).map(|(x, r)| (J::Arr(vec![jnode(x)]), r)),
            "peek" => ast::peek_first_node(cur).map(|x| (J::Arr(vec![jnode(x)]), cur)),
            "check_empty" => ast::check_empty_nodes(cur).map(|()| (J::Arr(vec![]), cur)),
            "unique_val" => ast::get_nodes_unique_val(cur).map(|x| (codes(x), cur)),
            //  on one node: the first
            "node_val" if cur.is_empty() => Err(ast::error("no node", None)),
            "node_name" if cur.is_empty() => Err(ast::error("no node", None)),
            "node_val" => ast::get_node_val(&cur[0]).map(|x| (codes(x), cur)),
            "node_name" => ast::get_nodename_and_nodes(&cur[0]).map(|(nm, sub)| (J::Arr(vec![s(nm), jnodes(sub)]), cur)),
            f => panic!("unknown helper {}", f),
        };
        out.push(match one {
            Ok((got, rest)) => {
                cur = rest;
                yes(got, jnodes(rest))
            }
            Err(_) => no(),
        });
        //  go on inside the rule just consumed
        if *st.get("enter") == J::Bool(true) {
            cur = within.unwrap_or(cur);
        }
    }
    obj(vec![("steps", J::Arr(out)), ("after", jnodes(&v))])
}

fn flat_helper(j: &J) -> J {
    let v: Vec<flat::Node> = j.get("nodes").arr().iter().map(fnode).collect();
    let mut cur: &[flat::Node] = &v;
    let mut out = vec![];
    for st in j.get("steps").arr() {
        let a = text(st.get("a"));
        let one = match st.get("op").str() {
            "consume_val" => flat::consume_val(cur).map(|(x, r)| (codes(x), r)),
            "consume_this_value" => flat::consume_this_value(&a, cur).map(|r| (J::Arr(vec![]), r)),
            "begin" => flat::consume_node_start_rule_name(&a, cur).map(|r| (J::Arr(vec![]), r)),
            "end" => flat::consume_node_end_rule_name(&a, cur).map(|r| (J::Arr(vec![]), r)),
            "split_first" => flat::split_first_nodes(cur).map(|(x, r)| (J::Arr(vec![jfnode(x)]), r)),
            "peek" => flat::peek_first_node(cur).map(|x| (J::Arr(vec![jfnode(x)]), cur)),
            "node_val" if cur.is_empty() => Err(ast::error("no node", None)),
            "node_name" if cur.is_empty() => Err(ast::error("no node", None)),
            "node_val" => flat::get_node_val(&cur[0]).map(|x| (codes(x), cur)),
            "node_name" => flat::get_nodename(&cur[0]).map(|x| (s(x), cur)),
            f => panic!("unknown helper {}", f),
        };
        out.push(match one {
            Ok((got, rest)) => {
                cur = rest;
                yes(got, jfnodes(rest))
            }
            Err(_) => no(),
        });
    }
    obj(vec![("steps", J::Arr(out)), ("after", jfnodes(&v))])
}

//  a history of operations on a few registers holding rule sets
fn history(j: &J) -> J {
    let mut regs: HashMap<i64, SetOfRules> = HashMap::new();
    let mut out = vec![];
    for st in j.get("steps").arr() {
        let r = st.get("r").num();
        let o = match st.get("a").str() {
            "new" => {
                //  a HashMap has no order, but collecting makes the last one of a name win
                let hm = st
                    .get("rules")
                    .arr()
                    .iter()
                    .map(|p| (text(&p.arr()[0]), expr(&p.arr()[1])))
                    .collect();
                regs.insert(r, SetOfRules::new(hm));
                jrules(&regs[&r])
            }
            "macro" => {
                let p = st.get("rules").arr();
                let nm = |i: usize| text(&p[i].arr()[0]);
                let ex = |i: usize| expr(&p[i].arr()[1]);
                let set = match p.len() {
                    0 => rules!(),
                    1 => rules!(&nm(0) => ex(0)),
                    2 => rules!(&nm(0) => ex(0), &nm(1) => ex(1)),
                    _ => rules!(&nm(0) => ex(0), &nm(1) => ex(1), &nm(2) => ex(2)),
                };
                regs.insert(r, set);
                jrules(&regs[&r])
            }
            "add" => {
                let set = regs.remove(&r).unwrap().add(&text(st.get("name")), expr(st.get("e")));
                regs.insert(r, set);
                jrules(&regs[&r])
            }
            "read" => {
                let set = match rules_from_peg(&text(st.get("text"))) {
                    Ok(x) => x,
                    Err(_) => rules!(),
                };
                regs.insert(r, set);
                jrules(&regs[&r])
            }
            "merge" => {
                let other = regs.remove(&st.get("s").num()).unwrap();
                let set = regs.remove(&r).unwrap().merge(other);
                regs.insert(r, set);
                jrules(&regs[&r])
            }
            //  with the register, and with a new set of the same bindings
            "parse" => {
                let t = text(st.get("text"));
                let fresh = rules(&jrules(&regs[&r]));
                obj(vec![("res", jres(&parse(&t, &regs[&r]))), ("fresh", jres(&parse(&t, &fresh)))])
            }
            a => panic!("unknown step {}", a),
        };
        out.push(o);
    }
    obj(vec![("out", J::Arr(out))])
}

#[allow(dead_code)]
pub fn count(x: usize) -> J {
    n(x)
}
