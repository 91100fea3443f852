#!/usr/bin/env python3
"""Validate planted changes and store the ones that count.

    plant.py CANDIDATES.py [id ...]

CANDIDATES.py defines CANDS: a list of dict(id, property, file, edits, demo, needs, breaks).
Each candidate is applied to a scratch copy of /repo; it is kept under seeded/<id> when the
existing tests still pass and its demonstration separates the two trees.
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/venv/bin/python"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/bash\n# run with cwd at the repository: exit 0 when the property holds in this scenario\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME="/root", LANG="C.UTF-8")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def one(c):
    tmp = tempfile.mkdtemp(prefix="plant_")
    tree = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", tree], check=True)
        for old, new, *rest in c["edits"]:
            path = os.path.join(tree, rest[0] if rest else c["file"])
            text = open(path).read()
            n = text.count(old)
            if n != 1:
                return c["id"], f"edit matches {n} times: {old[:70]!r}"
            open(path, "w").write(text.replace(old, new))
        diff = run(["git", "diff"], tree).stdout
        if not diff:
            return c["id"], "empty diff"
        d = os.path.join(tmp, "seed")
        os.mkdir(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(c["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": c["property"], "needs": c["needs"], "what_it_breaks": c["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = run(["bash", os.path.join(d, "demo.sh")], "/repo")
        if good.returncode != 0:
            return c["id"], "demo fails on unchanged tree:\n" + good.stdout[-600:] + good.stderr[-1200:]
        bad = run(["bash", os.path.join(d, "demo.sh")], tree)
        if bad.returncode == 0:
            return c["id"], "demo passes with the change"
        t = run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--benchmark-disable", "--timeout=60", "-x"],
                tree, {"PYTHONPATH": os.path.join(tree, "src"), "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"})
        if t.returncode != 0:
            tail = [l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
            return c["id"], "tests fail: " + "; ".join(tail)[:300]
        out = os.path.join(ROOT, "seeded", c["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        caught = run([sys.executable, os.path.join(ROOT, "check.py"), c["property"]], ROOT, {"DIWIRE_SA_REPO": tree})
        why = bad.stderr.strip().splitlines()[-1:] or bad.stdout.strip().splitlines()[-1:]
        return c["id"], f"KEPT ({c['property']} check exit {caught.returncode}) demo: {why}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("c", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    cands = [c for c in m.CANDS if not sys.argv[2:] or c["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(one, cands):
            print(f"{i}: {r}", flush=True)


main()
