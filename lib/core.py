"""Building the harness, running it, running TLC, reporting."""
import atexit
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """the machinery could not give an answer"""


def sh(cmd, timeout=None, env=None, cwd=None, inp=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, timeout=timeout, env=e, cwd=cwd, input=inp, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def cargo_env():
    return {"CARGO_TARGET_DIR": TARGET, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings"}


def harness_on(repo, src):
    """the sources of a harness on another tree"""
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    p = os.path.join(src, "Cargo.toml")
    t = open(p).read().replace('"/repo"', '"%s"' % repo)
    open(p, "w").write(t)
    return src


def build_harness(features=()):
    """-> path of the harness, built from the current tree of the repository"""
    src = os.path.join(VERIF, "harness")
    if REPO != "/repo":      # development only: the same harness on another tree
        src = harness_on(REPO, os.path.join(WORK, "harness-alt-" + "".join(sys.argv[1:2])))
    r, exe = cargo_build(src, "harness", ["--features", ",".join(features)] if features else [], 600)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-3000:])
    return exe


def cargo_build(src, name, args=(), timeout=800):
    """-> what cargo said, and a copy of the program, which checks that run at the same time leave alone"""
    with open(os.path.join(ensure(TARGET), "building"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = sh(["cargo", "build", "--offline", "--quiet"] + list(args), cwd=src, env=cargo_env(), timeout=timeout)
        if r.returncode != 0:
            return r, None
        mine = tempfile.mkdtemp(prefix="bin-", dir=ensure(WORK))
        atexit.register(shutil.rmtree, mine, True)
        return r, shutil.copy(os.path.join(TARGET, "debug", name), mine)


def read_nd(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def write_nd(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")


def run_harness(exe, reqs, workdir, name, timeout_ms=10000, shards=4):
    """requests -> answers, in order.  An answer {"bad": ...} is a panic, crash or hang of the code"""
    os.makedirs(workdir, exist_ok=True)
    shards = max(1, min(shards, len(reqs) // 50 + 1))
    procs = []
    for k in range(shards):
        i, o = (os.path.join(workdir, "%s.%d.%s" % (name, k, x)) for x in ("req", "ans"))
        write_nd(i, reqs[k::shards])
        procs.append((subprocess.Popen([exe, "run", i, o, str(timeout_ms)], stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True), i, o))
    out = [None] * len(reqs)
    for k, (p, i, o) in enumerate(procs):
        log, _ = p.communicate()
        if p.returncode != 0:
            raise ToolError("harness failed: " + log[-2000:])
        ans = read_nd(o)
        if len(ans) != len(reqs[k::shards]):
            raise ToolError("harness answered %d of %d requests" % (len(ans), len(reqs[k::shards])))
        out[k::shards] = ans
        os.remove(i)
        os.remove(o)
    for a in out:
        if a.get("bad") == "panic" and re.match(r"unknown |json: |char$|text expected", a.get("why", "")):
            raise ToolError("harness: " + a["why"])
    return out


class Tlc:
    def __init__(self, text, rc, wall):
        self.text, self.rc, self.wall = text, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        #  Finished without an error of the model or of TLC
        self.clean = "Model checking completed. No error has been found." in text
        self.violated = bool(re.search(r"is violated|Temporal properties were violated|Assumption .* is false", text))
        self.actions = {}
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)$", text, re.M):
            self.actions[m.group(1)] = self.actions.get(m.group(1), 0) + int(m.group(3))


def tlc(module, cfg=None, env=None, workers=8, timeout=800, coverage=False, extra=(), xmx="6g", cwd=None):
    """run TLC on a module of the specification (or of cwd, which then sees the specification too)"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ensure(WORK))
    cmd = ["java", "-Xss512m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-cleanup"]
    if coverage:
        cmd += ["-coverage", "1000"]
    cmd += ["-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        r = sh(cmd, cwd=cwd or SPEC, env=env, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC did not finish %s in %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(out, rc, time.time() - t)


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d
