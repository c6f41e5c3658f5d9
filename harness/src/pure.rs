//! Many parses of the same things in different circumstances
use crate::conv::*;
use crate::json::{n, obj, s, J};
use dynparser::parser::expression::SetOfRules;
use dynparser::{parse, parse_debug, rules_from_peg};

fn one(r: &SetOfRules, t: &str, dbg: bool) -> J {
    jres(&if dbg { parse_debug(t, r) } else { parse(t, r) })
}

//  {"sets": [[[name, expr]..]..] or [codes..] (peg), "jobs": [[set, text, dbg]..], "runs": [..]}
//  a run: {"how": "seq" | "threads" | "fresh" | "extra" | "place" | "many", "order": [job..]}
//  answer: {"events": [{"job", "how", "res"}..], "sets": [rules dump]..}
pub fn run(j: &J) -> J {
    let build = |js: &J| match js.get("peg") {
        J::Null => rules(js.get("rules")),
        t => rules_from_peg(&text(t)).unwrap_or_else(|_| rules!()),
    };
    let sets: Vec<SetOfRules> = j.get("sets").arr().iter().map(build).collect();
    let jobs: Vec<(usize, String, bool)> = j
        .get("jobs")
        .arr()
        .iter()
        .map(|p| {
            let p = p.arr();
            (p[0].num() as usize, text(&p[1]), p[2] == J::Bool(true))
        })
        .collect();
    let before: Vec<String> = sets.iter().map(|r| dump(r)).collect();
    let mut events = vec![];
    let mut push = |job: usize, how: &str, res: J| {
        events.push(obj(vec![("job", n(job)), ("how", s(how)), ("res", res)]));
    };
    for r in j.get("runs").arr() {
        let how = r.get("how").str();
        let order: Vec<usize> = r.get("order").arr().iter().map(|x| x.num() as usize).collect();
        match how {
            "seq" => {
                for i in order {
                    let (k, ref t, d) = jobs[i];
                    push(i, how, one(&sets[k], t, d));
                }
            }
            "fresh" => {
                //  the rules registered again, in another order
                for i in order {
                    let (k, ref t, d) = jobs[i];
                    let js = &j.get("sets").arr()[k];
                    let set = match js.get("rules") {
                        J::Null => build(js),
                        J::Arr(v) => {
                            let mut v = v.clone();
                            v.reverse();
                            rules(&J::Arr(v))
                        }
                        _ => panic!("rules"),
                    };
                    push(i, how, one(&set, t, d));
                }
            }
            "extra" => {
                //  with rules nobody refers to
                for i in order {
                    let (k, ref t, d) = jobs[i];
                    let set = build(&j.get("sets").arr()[k]);
                    let set = r
                        .get("extra")
                        .arr()
                        .iter()
                        .fold(set, |st, p| st.add(&text(&p.arr()[0]), expr(&p.arr()[1])));
                    push(i, how, one(&set, t, d));
                }
            }
            "place" => {
                //  every text where the one before was, and the rules too
                let size = jobs.iter().map(|(_, t, _)| t.len()).max().unwrap_or(0);
                let mut buf = String::with_capacity(size);
                let mut slot = Box::new(rules!());
                for i in order {
                    let (k, ref t, d) = jobs[i];
                    buf.clear();
                    buf.push_str(t);
                    *slot = build(&j.get("sets").arr()[k]);
                    push(i, how, one(&slot, &buf, d));
                }
            }
            "many" => {
                //  every job n times over; what it gave before need not be told again
                let mut last: Vec<Vec<J>> = vec![vec![]; jobs.len()];
                for _ in 0..r.get("n").num() {
                    for &i in &order {
                        let (k, ref t, d) = jobs[i];
                        let a = one(&sets[k], t, d);
                        if !last[i].contains(&a) && last[i].len() < 3 {
                            last[i].push(a.clone());
                            push(i, how, a);
                        }
                    }
                }
            }
            "threads" => {
                for (i, res) in threads(&sets, &jobs, &order, r.get("n").num() as usize) {
                    push(i, how, res);
                }
            }
            h => panic!("unknown run {}", h),
        }
    }
    let same = sets.iter().zip(before).all(|(r, b)| dump(r) == b);
    obj(vec![("events", J::Arr(events)), ("unchanged", J::Bool(same))])
}

fn dump(r: &SetOfRules) -> String {
    let mut v: Vec<String> = match jrules(r) {
        J::Arr(v) => v.iter().map(|x| x.text()).collect(),
        _ => vec![],
    };
    v.sort();
    v.join("\n")
}

#[cfg(feature = "threads")]
fn threads(sets: &[SetOfRules], jobs: &[(usize, String, bool)], order: &[usize], nth: usize) -> Vec<(usize, J)> {
    use std::sync::Barrier;
    let barrier = Barrier::new(nth);
    let mut out = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nth)
            .map(|k| {
                let barrier = &barrier;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        barrier.wait();
                        let mut v = vec![];
                        for p in 0..order.len() {
                            //  every thread starts at another place
                            let i = order[(p + k * order.len() / nth) % order.len()];
                            let (set, ref t, d) = jobs[i];
                            v.push((i, one(&sets[set], t, d)));
                        }
                        v
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(v) => out.extend(v),
                Err(_) => out.push((order[0], obj(vec![("k", s("panic"))]))),
            }
        }
    });
    out
}
#[cfg(not(feature = "threads"))]
fn threads(_: &[SetOfRules], _: &[(usize, String, bool)], _: &[usize], _: usize) -> Vec<(usize, J)> {
    panic!("built without threads")
}
