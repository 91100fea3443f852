#!/usr/bin/env python3
"""Whole-program rewrites that move code between functions (development aid): move_stress.py KIND[,KIND] [substr]

tofunc   a private method becomes a module function taking self
static   a private method that does not use self becomes a static method
wrap     the body of a function moves to a new function it delegates to
wrapdef  the same for module functions and closures are left alone
enum     for x in xs -> for _, x in enumerate(xs)
index    for x in xs (parameter or local list) -> for i in range(len(xs))
pairs    a helper that computes the arguments of a call and returns them as a tuple
splitif  if a or b: X -> if a: X elif b: X
"""
import ast, copy, glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "/repo/src/diwire"


def functions(tree):
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield None, n
        elif isinstance(n, ast.ClassDef):
            for x in n.body:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield n, x


ALL = {f: open(f).read() for f in glob.glob(SRC + "/**/*.py", recursive=True)}
TEXT = "\n".join(ALL.values())


def find(tree, cls, name):
    for c, f in functions(tree):
        if (c.name if c else None) == cls and f.name == name:
            return c, f


def names_used(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def tofunc(tree, c, f):
    if c is None or not f.name.startswith("_") or f.name.startswith("__") or f.decorator_list or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
        return False
    if any(d.name == f.name for cc, d in functions(tree) if cc is not c):
        return False
    calls = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name:
            calls.add(id(n.func))
    if any(isinstance(n, ast.Attribute) and n.attr == f.name and id(n) not in calls for n in ast.walk(tree)) or not calls:
        return False
    if sum(t.count("." + f.name) for p, t in ALL.items()) != sum(1 for n in ast.walk(tree) if isinstance(n, ast.Attribute) and n.attr == f.name):
        return False
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name:
            n.args.insert(0, n.func.value)
            n.func = ast.Name(f.name, ast.Load())
    c.body.remove(f)
    tree.body.insert(tree.body.index(c) + 1, f)
    return True


def static(tree, c, f):
    if c is None or not f.name.startswith("_") or f.name.startswith("__") or f.decorator_list or not f.args.args or f.args.args[0].arg != "self" or "self" in {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name)}:
        return False
    f.args.args.pop(0)
    f.decorator_list.append(ast.Name("staticmethod", ast.Load()))
    return True


def wrap(tree, c, f):
    if f.decorator_list or f.name.startswith("__") or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
        return False
    g = copy.deepcopy(f)
    g.name = "_do_" + f.name.strip("_")
    a = f.args
    pos = a.posonlyargs + a.args
    args = [ast.Name(p.arg, ast.Load()) for p in (pos[1:] if c else pos)]
    if a.vararg:
        args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
    kws = [ast.keyword(p.arg, ast.Name(p.arg, ast.Load())) for p in a.kwonlyargs]
    if a.kwarg:
        kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
    fn = ast.Attribute(ast.Name(pos[0].arg, ast.Load()), g.name, ast.Load()) if c else ast.Name(g.name, ast.Load())
    call = ast.Call(fn, args, kws)
    if isinstance(f, ast.AsyncFunctionDef):
        call = ast.Await(call)
    f.body = [ast.Return(call)]
    g.args.defaults, g.args.kw_defaults = [], [None] * len(g.args.kwonlyargs)
    body = c.body if c else tree.body
    body.insert(body.index(f) + 1, g)
    return True


def enum_(tree, c, f):
    done = False
    for n in ast.walk(f):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
            n.target = ast.Tuple([ast.Name("_position", ast.Store()), n.target], ast.Store())
            done = True
    return done


def index(tree, c, f):
    done = False
    seqs = {a.arg for a in ast.walk(f) if isinstance(a, ast.arg) and a.annotation is not None and ast.unparse(a.annotation).startswith(("list[", "tuple[", "Sequence["))}
    seqs |= {n.target.id for n in ast.walk(f) if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and ast.unparse(n.annotation).startswith(("list[", "tuple["))}
    k = 0
    for n in ast.walk(f):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id in seqs and not n.orelse:
            i = f"_index{k}"
            k += 1
            n.body.insert(0, ast.Assign([n.target], ast.Subscript(n.iter, ast.Name(i, ast.Load()), ast.Load())))
            n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [n.iter], [])], [])
            n.target = ast.Name(i, ast.Store())
            done = True
    return done


class Split(ast.NodeTransformer):
    done = False

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) and len(n.body) <= 3:
            self.done = True
            out = n.orelse
            for v in reversed(n.test.values):
                out = [ast.If(v, copy.deepcopy(n.body), out)]
            return out[0]
        return n


def splitif(tree, c, f):
    s = Split()
    s.visit(f)
    return s.done


class Nest(ast.NodeTransformer):
    """if a and b: X  (no else) -> if a: if b: X"""
    done = False

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            self.done = True
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


def nestif(tree, c, f):
    s = Nest()
    s.visit(f)
    return s.done


def flag(tree, c, f):
    """for x in xs: if c: return A ; rest -> found flag with break"""
    done = False
    for n in ast.walk(f):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and isinstance(s.body[0].body[-1], ast.Return) and sum(isinstance(x, ast.Return) for x in ast.walk(s)) == 1 and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
                    r = s.body[0].body[-1]
                    s.body[0].body[-1:] = [ast.Assign([ast.Name("found_value", ast.Store())], r.value or ast.Constant(None)), ast.Assign([ast.Name("was_found", ast.Store())], ast.Constant(True)), ast.Break()]
                    b.insert(i, ast.Assign([ast.Name("was_found", ast.Store())], ast.Constant(False)))
                    b.insert(i, ast.Assign([ast.Name("found_value", ast.Store())], ast.Constant(None)))
                    b.insert(i + 3, ast.If(ast.Name("was_found", ast.Load()), [ast.Return(ast.Name("found_value", ast.Load()))], []))
                    done = True
                    break
    return done


class Deflam(ast.NodeTransformer):
    def __init__(self):
        self.done = False


def tryelse(tree, c, f):
    """try: a; b except -> the returned value computed in the body, returned in else"""
    done = False
    for n in ast.walk(f):
        if isinstance(n, ast.Try) and not n.orelse and n.handlers and len(n.body) == 1 and isinstance(n.body[0], ast.Return) and n.body[0].value is not None and all(isinstance(h.body[-1], (ast.Return, ast.Raise, ast.Continue)) for h in n.handlers):
            n.orelse = [ast.Return(ast.Name("attempted_value", ast.Load()))]
            n.body = [ast.Assign([ast.Name("attempted_value", ast.Store())], n.body[0].value)]
            done = True
    return done


def singleexit(tree, c, f):
    """top-level returns in an if chain become one assigned result"""
    body = f.body
    k = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0

    def conv(stmts):
        if not stmts:
            return None
        last = stmts[-1]
        if isinstance(last, ast.Return):
            if any(isinstance(x, ast.Return) for s in stmts[:-1] for x in ast.walk(s)):
                pre = []
            v = last.value or ast.Constant(None)
            head = conv_head(stmts[:-1], [ast.Assign([ast.Name("outcome", ast.Store())], v)])
            return head
        if isinstance(last, ast.Raise):
            return conv_head(stmts[:-1], [last])
        if isinstance(last, ast.If) and last.orelse:
            a, b = conv(last.body), conv(last.orelse)
            if a is None or b is None:
                return None
            return conv_head(stmts[:-1], [ast.If(last.test, a, b)])
        return None

    def conv_head(head, tail):
        for i in range(len(head) - 1, -1, -1):
            s = head[i]
            if not any(isinstance(x, ast.Return) for x in ast.walk(s) if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))):
                tail = [s] + tail
                continue
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                tail = [s] + tail
                continue
            if isinstance(s, ast.If) and not s.orelse:
                b = conv(s.body)
                if b is None:
                    return None
                tail = [ast.If(s.test, b, tail)]
                continue
            return None
        return tail

    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) or sum(isinstance(x, ast.Return) for x in ast.walk(f)) < 2:
        return False
    new = conv(body[k:])
    if new is None:
        return False
    f.body = body[:k] + new + [ast.Return(ast.Name("outcome", ast.Load()))]
    return True


def instance(tree, c, f):
    """static method (self-called only) -> instance method"""
    if c is None or not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list):
        return False
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and n.attr == f.name and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
            return False
    f.decorator_list = []
    f.args.args.insert(0, ast.arg("self"))
    return True


def tometh(tree, c, f, static=True):
    """private module function used by the methods of one class -> method of that class"""
    if c is not None or f.decorator_list or f.name.startswith("__"):
        return False
    if sum(t.count(f.name) for p, t in ALL.items()) != sum(1 for n in ast.walk(tree) if isinstance(n, ast.Name) and n.id == f.name) + 1:
        return False
    users = [(k, m) for k, m in functions(tree) if m is not f and f.name in names_used(m)]
    if not users or len({k.name if k else None for k, _ in users}) != 1 or users[0][0] is None:
        return False
    if f.name in names_used(f):
        return False
    k = users[0][0]
    for _, m in users:
        if m.decorator_list or not m.args.args or m.args.args[0].arg != "self":
            return False
        for n in ast.walk(m):
            for field, v in ast.iter_fields(n):
                for i, x in enumerate(v if isinstance(v, list) else [v]):
                    if isinstance(x, ast.Name) and x.id == f.name:
                        new = ast.Attribute(ast.Name("self", ast.Load()), f.name, ast.Load())
                        if isinstance(v, list):
                            v[i] = new
                        else:
                            setattr(n, field, new)
    tree.body.remove(f)
    if static:
        f.decorator_list = [ast.Name("staticmethod", ast.Load())]
    else:
        f.args.args.insert(0, ast.arg("self"))
    k.body.append(f)
    return True


def tometh2(tree, c, f):
    return tometh(tree, c, f, False)


def module(tree, c, f):
    """module function (or class holding the method, once per class) -> a new module, imported back"""
    import builtins
    if c is not None:
        if f is not next(x for x in c.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))):
            return False
        f = c
    bound, where = {}, {}
    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                bound[a.asname or a.name.split(".")[0]] = n
        elif isinstance(n, ast.If):
            for x in n.body:
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        bound[a.asname or a.name.split(".")[0]] = x
    tops = {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))} | {t.id for n in tree.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)} | {n.target.id for n in tree.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)}
    used = names_used(f)
    need = (used & tops) - {f.name}
    inner = {a.asname or a.name for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    imports = []
    for u in sorted(used & set(bound) - inner):
        n = bound[u]
        for a in n.names:
            if (a.asname or a.name.split(".")[0]) == u:
                imports.append(ast.Import([a]) if isinstance(n, ast.Import) else ast.ImportFrom(n.module, [a], n.level))
    if need:
        # what it needs stays behind: only movable when nothing there is needed
        return False
    if any(isinstance(x, ast.Name) and x.id == f.name and isinstance(x.ctx, ast.Store) for x in ast.walk(tree)):
        return False
    i = tree.body.index(f)
    tree.body[i:i + 1] = []
    at = 1 + max(j for j, n in enumerate(tree.body) if isinstance(n, ast.ImportFrom) and n.module == "__future__") if any(isinstance(n, ast.ImportFrom) and n.module == "__future__" for n in tree.body) else 0
    tree.body.insert(at, ast.ImportFrom("diwire._internal.moved_helpers", [ast.alias(f.name)], 0))
    return {"_internal/moved_helpers.py": ast.Module([ast.ImportFrom("__future__", [ast.alias("annotations")], 0)] + imports + [f], [])}


KINDS = {"instance": instance, "tometh": tometh, "tometh2": tometh2, "module": module, "tofunc": tofunc, "static": static, "wrap": wrap, "enum": enum_, "index": index, "splitif": splitif, "nestif": nestif, "flag": flag, "tryelse": tryelse, "singleexit": singleexit}


def one(job):
    kind, path, cls, name = job
    tree = ast.parse(ALL[path])
    r = find(tree, cls, name)
    extra = r is not None and KINDS[kind](tree, *r)
    if not extra:
        return None
    d = tempfile.mkdtemp(prefix="mvs")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        text = ast.unparse(ast.fix_missing_locations(tree))
        compile(text, path, "exec")
        open(d + "/src/diwire/" + os.path.relpath(path, SRC), "w").write(text)
        for p, t in (extra.items() if isinstance(extra, dict) else ()):
            open(d + "/src/diwire/" + p, "w").write(ast.unparse(ast.fix_missing_locations(t)))
        if os.environ.get("IMPORT"):
            k = subprocess.run([os.environ["IMPORT"], "-c", "import diwire"], capture_output=True, text=True, env={**os.environ, "PYTHONPATH": d + "/src"})
            if k.returncode:
                return None
        r = subprocess.run([sys.executable, HERE + "/check_all.py", d, "-v"], capture_output=True, text=True, env={**os.environ, "JOBS": "1"})
        last = r.stdout.strip().split("\n")[-1] if r.stdout else r.stderr[-800:]
        return f"{kind} {os.path.basename(path)}:{cls}.{name}: {last}", not last.startswith("alarms 0"), r.stdout + r.stderr[-1500:]
    finally:
        shutil.rmtree(d)


def main():
    kinds = sys.argv[1].split(",") if sys.argv[1] != "all" else list(KINDS)
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    jobs = []
    for k in kinds:
        for p in sorted(ALL):
            if "integrations/pytest_plugin/" in p:
                continue
            jobs += [(k, p, c.name if c else None, f.name) for c, f in functions(ast.parse(ALL[p])) if pat in f"{os.path.basename(p)}:{c.name if c else ''}.{f.name}"]
    n = bad = 0
    with ThreadPoolExecutor(int(os.environ.get("W", "7"))) as ex:
        for r in ex.map(one, jobs):
            if r is None:
                continue
            n += 1
            if r[1]:
                bad += 1
                print(r[0])
                print("\n".join(x[:int(os.environ.get("SHOW", "700"))] for x in r[2].split("\n")[:5]), flush=True)
    print("done", kinds, n, "bad", bad)


main()
