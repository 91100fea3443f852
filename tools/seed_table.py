#!/usr/bin/env python3
"""Runs the analysis on a copy of the source with each seeded change and rewrites the table in DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(d):
    meta = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    t = tempfile.mkdtemp(prefix="seedtab_")
    try:
        shutil.copytree("/repo/src", os.path.join(t, "src"))
        r = subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={t}", os.path.join(HERE, "seeded", d, "patch.diff")], cwd="/", capture_output=True, text=True)
        if r.returncode:
            return d, meta, None, "does not apply: " + r.stderr[:100]
        o = subprocess.run([sys.executable, os.path.join(HERE, "tools", "check_all.py"), t], capture_output=True, text=True).stdout
        props = []
        for l in o.splitlines():
            if l.startswith("ALARM"):
                for p in l.split()[-1].split(","):
                    if p not in props:
                        props.append(p)
        return d, meta, sorted(props), ""
    finally:
        shutil.rmtree(t)

def main():
    ds = sorted(x for x in os.listdir(os.path.join(HERE, "seeded")) if os.path.exists(os.path.join(HERE, "seeded", x, "patch.diff")))
    rows = ["| change | property | caught by its check | checks that report it |", "|---|---|---|---|"]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for d, meta, props, err in ex.map(one, ds):
            own = props is not None and meta["property"] in props
            bad += not own
            if not own: print("MISSED", d, meta["property"], props, err)
            rows.append(f"| {d} | {meta['property']} | {'yes' if own else 'no ' + err} | {' '.join(props or [])} |")
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda m: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
    open(p, "w").write(s)
    print(len(ds), "seeded,", bad, "missed")
main()
