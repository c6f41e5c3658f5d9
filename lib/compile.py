"""Compiling generated code with the crate it is for, and running it."""
import os
import re
import shutil

import core

MAIN = '''%(limit)s
#[macro_use]
extern crate dynparser;
#[path = "%(harness)s/conv.rs"]
#[allow(dead_code)]
mod conv;
#[path = "%(harness)s/json.rs"]
#[allow(dead_code)]
mod json;
//  what the macro is given, in order
macro_rules! given {
    ($($n:expr => $e:expr),* $(,)?) => { vec![$($n.to_string()),*] };
}
%(mods)s
fn main() {
    std::thread::Builder::new().stack_size(512 << 20).spawn(|| {
        let show = |id: usize, names: Vec<String>, r: dynparser::parser::expression::SetOfRules| {
            let names = json::J::Arr(names.iter().map(|x| json::codes(x)).collect());
            println!("{}", json::obj(vec![("g", json::n(id)), ("names", names), ("built", conv::jrules(&r))]).text());
        };
%(calls)s
    }).unwrap().join().unwrap();
}
'''
ONE = '''pub fn names() -> Vec<String> { given!(
%(code)s
) }
pub fn build() -> dynparser::parser::expression::SetOfRules { rules!(
%(code)s
) }
'''
TOML = '''[package]
name = "generated"
version = "0.1.0"
edition = "2018"
[dependencies]
dynparser = { path = "%s" }
[profile.dev]
opt-level = 0
debug = false
incremental = false
codegen-units = 64
[workspace]
'''


def build_all(codes, where, rounds=6):
    """codes -> per code {"ok", "names", "built"} or {"ok": False, "why"}; None when it was not settled,
    as something else does not compile"""
    out = [None] * len(codes)
    live = list(range(len(codes)))
    for _ in range(rounds):
        if not live:
            break
        r, exe = build(codes, live, where)
        if r.returncode == 0:
            ans = core.sh([exe], timeout=120)
            if ans.returncode != 0:
                raise core.ToolError("the generated program does not run: " + ans.stdout[-2000:])
            import json
            for l in ans.stdout.splitlines():
                x = json.loads(l)
                out[x["g"]] = {"ok": True, "names": x["names"], "built": x["built"]}
            if any(out[k] is None for k in live):
                raise core.ToolError("the generated program left some out")
            return out
        wrong = {}
        for part in re.split(r"\n(?=error|warning)", r.stdout):
            m = re.search(r"src/g(\d+)\.rs", part)
            if m and part.startswith("error"):
                wrong.setdefault(int(m.group(1)), part.split("\n")[0])
        for k, why in wrong.items():
            out[k] = {"ok": False, "why": why}
        if not wrong:
            k = culprit(codes, live, where)
            if k is None:
                raise core.ToolError("the generated program does not build:\n" + r.stdout[-3000:])
            out[k] = {"ok": False, "why": r.stdout[:600]}
            return out
        live = [k for k in live if k not in wrong]
        if len(live) == 0:
            return out
    else:
        raise core.ToolError("the generated program does not build:\n" + r.stdout[-3000:])
    return out


def culprit(codes, live, where):
    """one of the codes that does not compile, with an error that does not say where it comes from"""
    if build(codes, [], where)[0].returncode != 0:
        return None
    while len(live) > 1:
        half = live[:len(live) // 2]
        live = half if build(codes, half, where)[0].returncode != 0 else live[len(live) // 2:]
    return live[0]


def depth(code):
    """at most how many macros there are one inside the other"""
    d = most = 0
    for c in code:
        if c in "([{":
            d += 1
            most = max(most, d)
        elif c in ")]}":
            d -= 1
    return most


def build(codes, live, where):
    shutil.rmtree(where, ignore_errors=True)
    src = core.ensure(os.path.join(where, "src"))
    with open(os.path.join(where, "Cargo.toml"), "w") as f:
        f.write(TOML % core.REPO)
    for k in live:
        with open(os.path.join(src, "g%d.rs" % k), "w", encoding="utf-8", newline="") as f:
            f.write(ONE % {"code": codes[k]})
    with open(os.path.join(src, "main.rs"), "w") as f:
        #  what is not nested deeply has to compile as things are
        limit = '#![recursion_limit = "1024"]' if any(depth(codes[k]) > 100 for k in live) else ""
        f.write(MAIN % {"limit": limit, "harness": os.path.join(core.VERIF, "harness", "src"), "mods": "\n".join("mod g%d;" % k for k in live),
                        "calls": "\n".join("        show(%d, g%d::names(), g%d::build());" % (k, k, k) for k in live)})
    return core.cargo_build(where, "generated")
