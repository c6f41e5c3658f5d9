#!/usr/bin/env python3
"""plant.py FILE [ID...]: makes seeded/<id>/ out of descriptions of bugs (a Python file with a list BUGS of
id, prop, edits [(file, old, new)], needs, breaks, demo), keeping those that build, pass the tests of the crate
and whose demonstration passes without them and fails with them.  Works in /tmp/plant."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
TREE = "/tmp/plant/repo"
DEMO = '''#!/bin/bash
# a program on the crate in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
dynparser = { path = "$repo" }
[workspace]
EOF
cd "$w" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTFLAGS=-Awarnings
cargo build --offline --quiet || exit 4
timeout 120 ./target/debug/demo
'''
HEAD = '''#[macro_use]
extern crate dynparser;
#[allow(unused_imports)]
use dynparser::{ast, ast::Node, parse, parse_debug, rules_from_peg};

'''


def sh(cmd, cwd=TREE, timeout=600):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR="/tmp/plant/target", RUSTFLAGS="-Awarnings")
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str))
    return p.returncode, p.stdout


def tests():
    rc, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    got = {}
    for m in re.finditer(r"^test (.*?) \.\.\. (\w+)", out, re.M):
        got[m.group(1)] = m.group(2)
    return rc, got, out


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    shutil.rmtree("/tmp/plant/repo", ignore_errors=True)
    shutil.copytree("/repo", TREE, ignore=shutil.ignore_patterns("target"))
    rc, base, _ = tests()
    base = {re.sub(r"line \d+", "", k): v for k, v in base.items()}
    for b in bugs:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -- .")
        d = "/tmp/plant/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.rs", "w").write((b["demo"] if "fn main" in b["demo"] else HEAD + "fn main() {\n" + b["demo"] + "\n}\n"))
        open(d + "/demo.sh", "w").write(b.get("sh", DEMO))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, out = sh(["bash", d + "/demo.sh"])
        if rc != 0:
            print(b["id"], "DEMO FAILS ON THE UNCHANGED TREE", rc, out[-1500:])
            continue
        bad = False
        for f, old, new in b["edits"]:
            p = os.path.join(TREE, f)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                print(b["id"], "EDIT: %d times in %s: %s" % (t.count(old), f, old[:80]))
                bad = True
                break
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        if bad:
            continue
        diff = subprocess.run(["git", "diff"], cwd=TREE, stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        rc, got, out = tests()
        got = {re.sub(r"line \d+", "", k): v for k, v in got.items()}
        lost = [k for k in base if base[k] == "ok" and got.get(k) != "ok"]
        if lost:
            print(b["id"], "TESTS", lost[:5], out[-800:] if not got else "")
            continue
        rc, out = sh(["bash", d + "/demo.sh"])
        if rc == 0:
            print(b["id"], "DEMO PASSES WITH THE BUG")
            continue
        if rc in (3, 4):
            print(b["id"], "DEMO DOES NOT BUILD", out[-800:])
            continue
        shutil.rmtree(os.path.join(SEEDED, b["id"]), ignore_errors=True)
        shutil.copytree(d, os.path.join(SEEDED, b["id"]))
        print(b["id"], "planted; demo says", rc, out.strip().splitlines()[:3])
    sh("git checkout -q -- .")


main()
