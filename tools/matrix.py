"""Runs the checks against the planted bugs, in scratch copies.
   python3 tools/matrix.py [--all] [--jobs N] [--tier quick] [ID...]
   without --all each bug only meets the check of its own property."""
import json
import os
import queue
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/matrix"


def worker(n, jobs, out, tier):
    v, r = "%s/v%d" % (BASE, n), "%s/r%d" % (BASE, n)
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(VERIF, v, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "work", "evidence"))
    while True:
        try:
            bug, props = jobs.get_nowait()
        except queue.Empty:
            break
        shutil.rmtree(r, ignore_errors=True)
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("target"))
        patch = bug if os.path.exists(bug) else os.path.join(VERIF, "seeded", bug, "patch.diff")
        p = subprocess.run(["git", "apply", patch], cwd=r, capture_output=True, text=True)
        if p.returncode:
            out[bug] = {"apply": p.stderr[:200]}
            continue
        for q in props:
            t = time.time()
            e = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER=tier)
            try:
                c = subprocess.run(["./check", q, tier], cwd=v, env=e, capture_output=True, text=True, timeout=900)
                rc, so = c.returncode, c.stdout + c.stderr
            except subprocess.TimeoutExpired:
                rc, so = "timeout", ""
            viol = [x for x in so.splitlines() if x.startswith("VIOLATION")]
            open("%s/log.%s.%s" % (BASE, os.path.basename(bug), q), "w").write(so)
            out.setdefault(bug, {})[q] = rc if rc != 1 or viol else "1-silent"
            print("%-22s %s rc=%s %5.1f s %s" % (os.path.basename(bug), q, rc, time.time() - t,
                                                 so.strip().splitlines()[-1][:150] if so.strip() and rc != 0 else ""), flush=True)
    shutil.rmtree(v, ignore_errors=True)
    shutil.rmtree(r, ignore_errors=True)


def main():
    a = sys.argv[1:]
    alls = "--all" in a
    n, tier, ids = 2, "quick", []
    while a:
        x = a.pop(0)
        if x == "--jobs":
            n = int(a.pop(0))
        elif x == "--tier":
            tier = a.pop(0)
        elif x != "--all":
            ids.append(x)
    ids = ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    props = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
    jobs, out = queue.Queue(), {}
    for b in ids:
        if alls:
            jobs.put((b, props))
        else:
            jobs.put((b, [json.load(open(os.path.join(VERIF, "seeded", b, "meta.json")))["property"]]))
    os.makedirs(BASE, exist_ok=True)
    ts = [threading.Thread(target=worker, args=(i, jobs, out, tier)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    path = os.path.join(BASE, "matrix.json")
    old = json.load(open(path)) if os.path.exists(path) else {}
    for b in out:
        old.setdefault(os.path.basename(b), {}).update(out[b])
    json.dump(old, open(path, "w"), indent=1, sort_keys=True)


main()
