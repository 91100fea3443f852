#!/usr/bin/env python3
"""Single-site mutations of every function of a copy of the reference; prints the ones the comparison does not
report (development aid, not a check): mutation_stress.py PART NPARTS [substring] [max-per-function]"""
import ast, copy, os, random, sys, time, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.program import Program, Func
from sa.compare import Comparator, Pair, norm_dump
from collections import Counter

CMP = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}

def sites(fn):
    """(kind, function(copy node) -> None) for each mutation; addressed by walk index."""
    out = []
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for j, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Nonlocal, ast.Pass, ast.Import, ast.ImportFrom)): continue
                    if isinstance(s, ast.AnnAssign) and s.value is None: continue
                    out.append(("del", i, f, j))
                    if j + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign)) and isinstance(b[j + 1], (ast.Expr, ast.Assign)): out.append(("swap", i, f, j))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)): out.append(("neg", i, "test", 0))
        if isinstance(n, ast.BoolOp):
            out.append(("andor", i, "", 0))
            for j in range(len(n.values)): out.append(("dropop", i, "values", j))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP: out.append(("cmp", i, "", 0))
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not ...: out.append(("const", i, "", 0))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): out.append(("unnot", i, "", 0))
        if isinstance(n, ast.Call):
            for j in range(len(n.keywords)): out.append(("dropkw", i, "keywords", j))
            if isinstance(n.func, ast.Name) and n.func.id in ("reversed", "tuple", "list", "sorted") and len(n.args) == 1: out.append(("unwrap", i, "", 0))
        if isinstance(n, ast.comprehension) and n.ifs: out.append(("dropif", i, "", 0))
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Name) and n.type.id == "BaseException": out.append(("exc", i, "", 0))
        if isinstance(n, ast.Try) and n.finalbody: out.append(("nofinal", i, "", 0))
        if isinstance(n, ast.With): out.append(("nowith", i, "", 0))
        if isinstance(n, (ast.For, ast.While)) : out.append(("once", i, "", 0))
    return out

def mutate(fn, site):
    kind, i, f, j = site
    n = list(ast.walk(fn))[i]
    if kind == "del":
        b = getattr(n, f); d = b[j]
        b[j:j + 1] = [ast.Pass()]
    elif kind == "swap":
        b = getattr(n, f); b[j], b[j + 1] = b[j + 1], b[j]
    elif kind == "neg": n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "andor": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "dropop": del n.values[j]; n.values = n.values if len(n.values) > 1 else n.values * 2
    elif kind == "cmp": n.ops = [CMP[type(n.ops[0])]()]
    elif kind == "const": n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1
    elif kind == "unnot": n.op = ast.Not(); n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == "dropkw": del n.keywords[j]
    elif kind == "unwrap": n.func = ast.Name("_identity", ast.Load())
    elif kind == "dropif": n.ifs = []
    elif kind == "exc": n.type = ast.Name("Exception", ast.Load())
    elif kind == "nofinal":
        n.orelse = n.orelse + n.finalbody; n.finalbody = []
        if not n.handlers: n.handlers = [ast.ExceptHandler(ast.Name("ZeroDivisionError", ast.Load()), None, [ast.Raise()])]
    elif kind == "nowith": n.items = [ast.withitem(ast.Call(ast.Attribute(ast.Name("contextlib", ast.Load()), "nullcontext", ast.Load()), [], []), n.items[0].optional_vars)]
    elif kind == "once": n.body = n.body + [ast.Break()]

class TO(Exception): pass
def _alarm(*a): raise TO()

def main():
    part, nparts = int(sys.argv[1]), int(sys.argv[2])
    pat = sys.argv[3] if len(sys.argv) > 3 else ""
    cap = int(sys.argv[4]) if len(sys.argv) > 4 else 12
    signal.signal(signal.SIGALRM, _alarm)
    ref = Program(HERE + "/reference/src"); cur = Program(HERE + "/reference/src")
    pair = Pair(ref, cur)
    fs = [f for f in cur.all_funcs() if pat in f.key]
    fs = [f for k, f in enumerate(fs) if k % nparts == part]
    cnt = Counter(); rnd = random.Random(7)
    for f in fs:
        orig = f.node
        ss = sites(orig)
        if len(ss) > cap: ss = rnd.sample(ss, cap)
        for s in ss:
            f.node = copy.deepcopy(orig)
            try:
                mutate(f.node, s)
                ast.fix_missing_locations(f.node)
                pair.dump_c[f.key] = norm_dump(f.node)
            except Exception as e:
                cnt["badmut"] += 1; f.node = orig; continue
            if pair.dump_c[f.key] == pair.dump_r[f.key]: f.node = orig; continue
            pair._moved.clear()
            c = Comparator(pair)
            t = time.time()
            signal.alarm(120)
            try: r = c.compare(f.key); st, note = r.status, r.note
            except TO: st, note = "timeout", ""
            except Exception as e: st, note = "crash", repr(e)[:200]
            signal.alarm(0)
            if st == "differs" and f.key in c.absorb({f.key: r}): st = "absorbed"
            cnt[st] += 1
            n = list(ast.walk(orig))[s[1]]
            if st != "differs":
                tgt = getattr(n, s[2])[s[3]] if s[2] in ("body", "orelse", "finalbody", "values", "keywords") else n
                txt = ast.unparse(tgt).replace("\n", " ⏎ ")[:160]
                print(f"{st:10} {s[0]:8} {f.key} L{getattr(tgt,'lineno',getattr(n,'lineno',0))} {txt} {note} {time.time()-t:.0f}s", flush=True)
        f.node = orig
        pair.dump_c[f.key] = pair.dump_r[f.key]
    print(dict(cnt), flush=True)
main()
