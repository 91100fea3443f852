#!/usr/bin/env python3
"""All properties in one process on a source tree (development aid): check_all.py REPO [-v]"""
import os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.coverage import COVERAGE
from sa.framework import Ctx, analyse, load_known

repo = sys.argv[1]
known = load_known(HERE)
t0 = time.time()
shared = None
alarms = {}
for prop in COVERAGE:
    ctx = Ctx(prop, HERE, repo, "quick", shared)
    if shared is None:
        shared = ctx
        ctx.comparator.compare_all([k for k in ctx.pair.rf], jobs=int(os.environ.get("JOBS", "8")))
    analyse(ctx)
    for x in ctx.lost:
        print("LOST", prop, x)
    for f in ctx.findings:
        if f.ident() not in known.get(prop, {}):
            alarms.setdefault((f.ident(), f.file, f.line, f.detail, f.path), []).append(prop)
for (ident, file, line, detail, path), props in alarms.items():
    print("ALARM", ident, f"{file}:{line}", ",".join(props))
    print("   ", detail[:300])
    if "-v" in sys.argv: print("   ", path[:3000])
st = {}
for k, r in shared.comparator.cache.items():
    if r.status != "identical":
        print("  ", r.status, k, r.note, r.level)
print("alarms", len(alarms), f"{time.time()-t0:.1f}s")
