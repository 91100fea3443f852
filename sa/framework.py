"""Runs the rules of one property, prints violations, writes evidence."""
from __future__ import annotations

import json
import os
import time

from .compare import Comparator, Pair
from .coverage import functions_for
from .defs import compare_definitions
from .program import AnchorError, Program


class Finding:
    def __init__(self, rule: str, construct: str, file: str, line: int, detail: str, path: str = "") -> None:
        self.rule, self.construct, self.file, self.line, self.detail, self.path = rule, construct, file, line, detail, path

    def ident(self) -> str:
        return f"{self.rule}|{self.construct}"

    def as_dict(self):
        return {"rule": self.rule, "construct": self.construct, "file": self.file, "line": self.line, "detail": self.detail, "path": self.path}


class Ctx:
    """Everything a rule may look at, and the counters it fills in."""

    def __init__(self, prop: str, here: str, repo: str, tier: str, shared: "Ctx | None" = None) -> None:
        self.prop, self.tier = prop, tier
        if shared is not None:
            self.cur, self.ref, self.pair, self.comparator = shared.cur, shared.ref, shared.pair, shared.comparator
        else:
            self.cur = Program(os.path.join(repo, "src"))
            self.ref = Program(os.path.join(here, "reference", "src"))
            self.pair = Pair(self.ref, self.cur)
            self.comparator = Comparator(self.pair, unroll=3, max_paths=20000, deep_unroll=6, deep_paths=12000) if tier == "thorough" else Comparator(self.pair)
        self.findings: list[Finding] = []
        self.known: dict[str, str] = {}
        self.counts: dict[str, int] = {}
        self.notes: list[str] = []
        self.functions: dict[str, str] = {}
        self.rules: list[dict] = []
        self.lost: list[str] = []

    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] = self.counts.get(name, 0) + n

    def report(self, rule, construct, file, line, detail, path=""):
        self.findings.append(Finding(rule, construct, file, line, detail, path))

    def need(self, cond, what):
        """An instance the rule is about must exist, otherwise the analysis lost its subject."""
        if not cond:
            raise AnchorError(what)


def relational(ctx: Ctx) -> None:
    """Every function the property rests on has the observable path summaries that were reviewed."""
    pair, comp = ctx.pair, ctx.comparator
    keys = functions_for(ctx.prop, pair.rf)
    comp.compare_all(keys)
    differing = {k: r for k in keys if (r := comp.compare(k)).status == "differs"}
    if differing:
        comp.cache.update(comp.absorb(differing))
    for k in keys:
        r = comp.compare(k)
        ctx.functions[k] = r.status + (f" ({r.note})" if r.note else "")
        ctx.count("functions_" + r.status)
        ctx.count("reviewed_paths", r.ref_paths)
        ctx.count("current_paths_compared", r.cur_paths)
        if r.status == "differs":
            m = r.mismatch
            ctx.report("reviewed-behaviour", m.func, m.file or pair.cf[k].module.rel, m.line, m.what, m.detail)
    if pair.renamed:
        ctx.notes.append("renamed: " + ", ".join(f"{b} -> {a}" for a, b in sorted(pair.renamed.items())))
    diffs, n = compare_definitions(pair.ref, pair.cur, pair.alias)
    ctx.count("definitions_compared", n)
    from .coverage import properties_of_definition

    for d in diffs:
        if ctx.prop in properties_of_definition(d.key):
            ctx.report("reviewed-definition", d.key, d.file, d.line, d.what, d.detail)


def load_known(here: str) -> dict[str, dict[str, str]]:
    out: dict[str, dict[str, str]] = {}
    p = os.path.join(here, "known_findings.json")
    if os.path.exists(p):
        with open(p, encoding="utf-8") as fh:
            for e in json.load(fh)["known"]:
                out.setdefault(e["property"], {})[f"{e['rule']}|{e['construct']}"] = e["what"]
    return out


def analyse(ctx: Ctx) -> None:
    """The comparison, then all rules of the property (which read what the comparison could not settle)."""
    from .rules import RULES

    relational(ctx)
    for rule in RULES.get(ctx.prop, []):
        before = len(ctx.findings)
        try:
            rule(ctx)
        except AnchorError as e:
            ctx.rules.append({"rule": rule.__name__, "lost_anchor": str(e)})
            ctx.notes.append(f"{rule.__name__}: {e}")
            ctx.lost.append(f"{rule.__name__}: {e}")
            continue
        ctx.rules.append({"rule": rule.__name__, "what": (rule.__doc__ or "").strip().split("\n")[0], "findings": len(ctx.findings) - before})


def main(argv, here) -> int:
    t0 = time.time()
    prop = argv[0]
    repo = os.environ.get("DIWIRE_SA_REPO", "/repo")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        ctx = Ctx(prop, here, repo, tier)
    except SyntaxError as e:
        print(f"ERROR: cannot parse the source: {e}")
        return 2
    known = load_known(here).get(prop, {})
    analyse(ctx)
    code = 0
    seen = set()
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    viol = []
    for f in ctx.findings:
        if f.ident() in seen:
            continue
        seen.add(f.ident())
        if f.ident() in known:
            print(f"KNOWN-FINDING: property={prop} {known[f.ident()]} [{f.file}:{f.line}]")
            continue
        viol.append(f)
    for i, f in enumerate(viol):
        path = os.path.join(here, "evidence", f"{prop}-violation-{i}.json")
        with open(path, "w", encoding="utf-8") as fh:
            json.dump({"property": prop, **f.as_dict(), "how_to_replay": f"python3 /verif/check.py {prop}"}, fh, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {f.rule}: {f.file}:{f.line} {f.construct}: {f.detail}")
        if f.path:
            print(f"    {f.path[:1500]}")
        code = 1
    lost = ctx.lost
    decided = {k: v for k, v in ctx.functions.items()}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source of /repo (nothing is executed). Rules on the paths of the named functions, and comparison of the path summaries "
                           "(ordered effects, outcome, branch facts) of every function the property rests on with their reviewed counterparts.",
            "rules": ctx.rules, "notes": ctx.notes,
            "functions": len(ctx.functions), "counts": ctx.counts,
            "changed_functions": {k: v for k, v in decided.items() if not v.startswith("identical")},
            "samples": list(decided)[:8],
            "source_digest": ctx.cur.digest(),
        },
        "assumptions": ["loops are analysed for 0, 1 and 2 iterations", "calls into the standard library behave as modelled (sa/effects.py)", "reviewed reference paths were judged against the property by hand and by the rules"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(here, "evidence", f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    if code == 0 and lost:
        for x in lost:
            print(f"LOST-ANCHOR {x}")
    print(f"{prop}: {'VIOLATED' if code else 'held'}; {len(ctx.functions)} functions, {ctx.counts.get('functions_identical', 0)} unchanged, rules {len(ctx.rules)}, {time.time()-t0:.1f}s")
    return code
