#!/usr/bin/env python3
"""Applies each hand-written behaviour-preserving rewrite in tools/refactorings to a scratch copy of /repo/src and
runs every property on it (development aid): try_refactorings.py [name-substring] [-t runs the test-suite too]"""
import glob, importlib.util, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
def replace_def(s, qual, new):
    """Replaces the definition `qual` (last overload) with the text `new`, re-indented."""
    import ast, textwrap
    body, node = ast.parse(s).body, None
    for part in qual.split("."):
        c = []
        st = list(body)
        while st:
            n = st.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                if n.name == part: c.append(n)
            elif isinstance(n, (ast.If, ast.Try)): st += n.body + n.orelse
        node = c[-1]; body = node.body
    lines = s.split("\n")
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    ind = " " * node.col_offset
    return "\n".join(lines[:first - 1] + [textwrap.indent(textwrap.dedent(new).strip("\n"), ind)] + lines[node.end_lineno:])


pat = next((a for a in sys.argv[1:] if not a.startswith("-")), "")


def one(job):
    f, name, edits = job
    out, isbad = [], 0
    d = tempfile.mkdtemp(prefix="rfx")
    try:
        shutil.copytree("/repo/src", d + "/src")
        for e in edits:
            p = d + "/src/diwire/" + e[0]
            s = open(p).read() if os.path.exists(p) else ""
            if len(e) == 4 and e[3] == "def":
                s2 = replace_def(s, e[1], e[2])
            elif len(e) == 4 and e[3] == "re":
                s2 = re.sub(e[1], e[2], s)
            elif e[1] is None:
                s2 = s + e[2]
            else:
                if s.count(e[1]) < 1:
                    return f"NO MATCH {name} {e[0]} {e[1][:80]}", 1
                s2 = s.replace(e[1], e[2]) if len(e) == 4 else s.replace(e[1], e[2], 1)
            open(p, "w").write(s2)
        for root, _, files in os.walk(d + "/src/diwire"):
            for x in files:
                if x.endswith(".py"): compile(open(os.path.join(root, x)).read(), x, "exec")
        r = subprocess.run([sys.executable, HERE + "/check_all.py", d, "-v"], capture_output=True, text=True, env={**os.environ, "JOBS": "2"})
        last = r.stdout.strip().split("\n")[-1] if r.stdout else r.stderr[-800:]
        out.append(f"{os.path.basename(f)}:{name}: {last}")
        if not last.startswith("alarms 0"):
            isbad = 1
            out.append(r.stdout[:6000] + r.stderr[-1500:])
        elif "-v" in sys.argv: out.append(r.stdout)
        if "-t" in sys.argv:
            t = subprocess.run(f"cd /repo && PYTHONPATH={d}/src PYTHONDONTWRITEBYTECODE=1 timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --benchmark-disable tests 2>&1 | tail -3", shell=True, capture_output=True, text=True)
            out.append("   tests: " + t.stdout.strip())
    finally:
        shutil.rmtree(d)
    return "\n".join(out), isbad


jobs = []
for f in sorted(glob.glob(os.path.join(HERE, "refactorings", "*.py"))):
    spec = importlib.util.spec_from_file_location("x", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    jobs += [(f, n, e) for n, e in m.REFACTORINGS.items() if pat in f"{os.path.basename(f)}:{n}"]
bad = 0
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(7) as ex:
    for text, b in ex.map(one, jobs):
        print(text, flush=True)
        bad += b
print("bad", bad)
