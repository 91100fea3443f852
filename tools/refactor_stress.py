#!/usr/bin/env python3
"""Applies behaviour-preserving rewrites to every function of a copy of the reference, one kind at a time,
and reports where the comparator does not see that behaviour is unchanged (development aid, not a check)."""
import ast, copy, os, random, sys, time, types
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.program import Program, Func, walk_own
from sa.compare import Comparator, Pair, norm_dump
from collections import Counter

NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}

def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in NEG:
        return ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators)
    if isinstance(t, ast.BoolOp):
        return ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), [neg(v) for v in t.values])
    return ast.UnaryOp(ast.Not(), t)

def terminal(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

class SwapIf(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(neg(n.test), n.orelse, n.body)
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(neg(n.test), n.orelse, n.body)

class Body(ast.NodeTransformer):
    def fix(self, body): raise NotImplementedError
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.fix(b))
        return n

class ElseNest(Body):
    """if c: ...return; rest  ->  if c: ... else: rest"""
    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and i + 1 < len(body):
                rest = self.fix(body[i + 1:])
                return body[:i] + [ast.If(s.test, s.body, rest)]
        return body

class ElseFlat(Body):
    """if c: ...return else: rest -> if c: ...return; rest"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and terminal(s.body):
                out.append(ast.If(s.test, s.body, []))
                out += self.fix(s.orelse)
            else:
                out.append(s)
        return out

class RetTemp(Body):
    """return e -> result = e; return result"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                out.append(ast.Assign([ast.Name("result_value", ast.Store())], s.value))
                out.append(ast.Return(ast.Name("result_value", ast.Load())))
            else:
                out.append(s)
        return out

class TestTemp(Body):
    """if e: -> flag = e; if flag:"""
    k = 0
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                self.k += 1
                nm = f"flag_{self.k}"
                out.append(ast.Assign([ast.Name(nm, ast.Store())], s.test))
                out.append(ast.If(ast.Name(nm, ast.Load()), s.body, s.orelse))
            else:
                out.append(s)
        return out

class MergeAnd(Body):
    """if a: if b: X -> if a and b: X ; and the inverse"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                out.append(ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, []))
            elif isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                b = s.body
                for t in reversed(s.test.values):
                    b = [ast.If(t, b, [])]
                out += b
            else:
                out.append(s)
        return out

class IfExpStmt(Body):
    """x = a if c else b <-> if statement; return a if c else b"""
    def fix(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                v = s.value
                out.append(ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                v = s.value
                out.append(ast.If(v.test, [ast.Return(v.body)], []))
                out.append(ast.Return(v.orelse))
            elif isinstance(s, ast.If) and len(s.body) == 1 == len(s.orelse) and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            else:
                out.append(s)
        return out

class CompLoop(Body):
    """x = [e for ...] -> loop with append ; tuple(gen)/list(gen) too; dict comp -> loop with item store"""
    k = 0
    def fix(self, body):
        out = []
        for s in body:
            v = getattr(s, "value", None)
            tgt = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
            is_ret = isinstance(s, ast.Return)
            wrap = None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("tuple", "list", "set", "dict", "sorted", "frozenset") and len(v.args) == 1 and not v.keywords and isinstance(v.args[0], ast.GeneratorExp):
                wrap, comp = v.func.id, v.args[0]
            else:
                comp = v
            if (isinstance(tgt, ast.Name) or is_ret) and isinstance(comp, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)) and (wrap or not isinstance(comp, ast.GeneratorExp)) and not any(g.is_async for g in comp.generators):
                self.k += 1
                acc = f"acc_{self.k}"
                A = lambda c: ast.Name(acc, c)
                if isinstance(comp, ast.DictComp):
                    init, inner = ast.Dict([], []), ast.Assign([ast.Subscript(A(ast.Load()), comp.key, ast.Store())], comp.value)
                elif isinstance(comp, ast.SetComp):
                    init, inner = ast.Call(ast.Name("set", ast.Load()), [], []), ast.Expr(ast.Call(ast.Attribute(A(ast.Load()), "add", ast.Load()), [comp.elt], []))
                else:
                    init, inner = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(A(ast.Load()), "append", ast.Load()), [comp.elt], []))
                b = [inner]
                # rename the comprehension variables so that nothing outside is clobbered
                names = {x.id for g in comp.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for g in reversed(comp.generators):
                    for c in reversed(g.ifs):
                        b = [ast.If(c, b, [])]
                    b = [ast.For(g.target, g.iter, b, [])]
                ren = Rename({n: f"{n}_l{self.k}" for n in names})
                # the first iterable is evaluated outside
                first = b[0].iter
                b = [ren.visit(copy.deepcopy(x)) for x in b]
                b[0].iter = first
                out.append(ast.Assign([A(ast.Store())], init))
                out += b
                res = A(ast.Load()) if wrap in (None, "list") else ast.Call(ast.Name(wrap, ast.Load()), [A(ast.Load())], [])
                out.append(ast.Return(res) if is_ret else ast.Assign([tgt], res))
            else:
                out.append(s)
        return out

class LoopComp(Body):
    """x = []; for..: x.append(e) -> x = [e for ...]"""
    def fix(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            nx = body[i + 1] if i + 1 < len(body) else None
            tgt = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
            if isinstance(tgt, ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(nx, ast.For) and not nx.orelse:
                b = nx.body
                conds = []
                while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
                    conds.append(b[0].test); b = b[0].body
                if len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Call) and isinstance(b[0].value.func, ast.Attribute) and b[0].value.func.attr == "append" and isinstance(b[0].value.func.value, ast.Name) and b[0].value.func.value.id == tgt.id:
                    out.append(ast.Assign([tgt], ast.ListComp(b[0].value.args[0], [ast.comprehension(nx.target, nx.iter, conds, 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out

class Rename(ast.NodeTransformer):
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        return ast.Name(self.m.get(n.id, n.id), n.ctx)
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.m: n.name = self.m[n.name]
        return n
    def visit_MatchAs(self, n):
        self.generic_visit(n)
        if n.name in self.m: n.name = self.m[n.name]
        return n
    def visit_Nonlocal(self, n):
        n.names = [self.m.get(x, x) for x in n.names]
        return n
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.name = self.m.get(n.name, n.name)
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

def locals_of(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, ast.MatchAs) and n.name: out.add(n.name)
    a = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            x = n.args
            a |= {p.arg for p in x.posonlyargs + x.args + x.kwonlyargs} | ({x.vararg.arg} if x.vararg else set()) | ({x.kwarg.arg} if x.kwarg else set())
    return out - a

def rename_locals(fn):
    m = {n: f"{n}_rn" for n in locals_of(fn)}
    r = Rename(m)
    fn.body = [r.visit(s) for s in fn.body]
    return fn

class Noop(Body):
    def fix(self, body):
        return ([ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(0))] if not isinstance(body[0], ast.Expr) else []) + body

class KwCalls(ast.NodeTransformer):
    """positional arguments of self.method(...) calls by keyword and back"""
    def __init__(self, prog): self.prog = prog
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            c = [f for f in self.prog if f.name == n.func.attr and f.cls]
            if len(c) == 1 and "staticmethod" not in c[0].decorators:
                ps = [p.arg for p in c[0].node.args.args][1:]
                if len(n.args) <= len(ps) and not c[0].node.args.posonlyargs:
                    n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                    n.args = []
        return n

def extract_helper(fn, cls, rnd, which):
    """Moves the tail or an if-body of the function into a new private method/function."""
    own = locals_of(fn)
    a = fn.args
    params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    if any(isinstance(n, (ast.Nonlocal, ast.Global, ast.Yield, ast.YieldFrom)) for n in ast.walk(fn)): return None
    body = fn.body
    start = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
    is_async = isinstance(fn, ast.AsyncFunctionDef)
    cands = []
    if which == "tail":
        for i in range(start + 1, len(body)):
            cands.append((fn, "body", i, len(body)))
    else:
        def rec(n):
            for f in ("body", "orelse"):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and n is not fn and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if terminal(b) and isinstance(b[-1], (ast.Return, ast.Raise)) and len(b) > 1:
                        cands.append((n, f, 0, len(b)))
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): continue
                rec(c)
        rec(fn)
    if not cands: return None
    n, f, i, j = rnd.choice(cands)
    blk = getattr(n, f)[i:j]
    if any(isinstance(x, (ast.Continue, ast.Break)) for s in blk for x in ast.walk(s)) and which != "tail": return None
    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for s in blk for x in ast.walk(s)): return None
    # bare raise needs its handler
    if any(isinstance(x, ast.Raise) and x.exc is None for s in blk for x in ast.walk(s)): return None
    used = {x.id for s in blk for x in ast.walk(s) if isinstance(x, ast.Name)}
    storedin = {x.id for s in blk for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    before = set()
    for s in ast.walk(fn):
        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store): before.add(s.id)
        if isinstance(s, ast.ExceptHandler) and s.name: before.add(s.name)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s is not fn: before.add(s.name)
    blk_only = set()
    # a name first bound inside the block and only used inside it stays local
    outside = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} 
    inside_ids = {id(x) for s in blk for x in ast.walk(s)}
    out_used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inside_ids} | {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and id(x) not in inside_ids} | {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name and id(x) not in inside_ids}
    frees = sorted(x for x in used if (x in params or x in before) and (x in out_used or x in params) and not (x in storedin and x not in out_used))
    def bound_first(x):
        """The block assigns the name before anything in it may read it."""
        for st in blk:
            names = [y for y in ast.walk(st) if isinstance(y, ast.Name) and y.id == x]
            if not names: continue
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and all(isinstance(y.ctx, ast.Store) for y in names): return True
            if isinstance(st, ast.For) and any(y.id == x for y in ast.walk(st.target) if isinstance(y, ast.Name)) and not any(y.id == x for y in ast.walk(st.iter) if isinstance(y, ast.Name)):
                return True
            if isinstance(st, ast.If) and all(bound_in(y, st, x) for y in names if isinstance(y.ctx, ast.Load)): return all(bf(b, x) for b in (st.body, st.orelse) if any(isinstance(y, ast.Name) and y.id == x for z in b for y in ast.walk(z))) and not any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(st.test))
            return False
        return False
    def bound_in(y, st, x): return True
    def bf(b, x):
        for st in b:
            names = [y for y in ast.walk(st) if isinstance(y, ast.Name) and y.id == x]
            if names: return isinstance(st, (ast.Assign, ast.AnnAssign)) and all(isinstance(y.ctx, ast.Store) for y in names)
        return True
    frees = [x for x in frees if x in params or not bound_first(x)]
    # a nested function defined in the block
    aw = any(isinstance(x, ast.Await) or isinstance(x, (ast.AsyncFor, ast.AsyncWith)) for s in blk for x in ast.walk(s))
    selfn = "self" if cls is not None and "self" in params else None
    ps = [x for x in frees if x != "self" or not selfn]
    name = "_extracted_part"
    call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()) if selfn else ast.Name(name, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], [])
    if cls is not None and not selfn: return None
    val = ast.Await(call) if aw else call
    newbody = [ast.Return(val)]
    h = (ast.AsyncFunctionDef if aw else ast.FunctionDef)(name, ast.arguments([], ([ast.arg("self")] if selfn else []) + [ast.arg(p) for p in ps], None, [], [], None, []), blk, [], None, None, [])
    setattr(n, f, getattr(n, f)[:i] + newbody + getattr(n, f)[j:])
    return h

class SwapEq(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        M = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in M:
            return ast.Compare(n.comparators[0], [M[type(n.ops[0])]()], [n.left])
        return n

class InlineTemp(Body):
    """x = e; <stmt using x once, nowhere else> -> stmt with e"""
    def fix(self, body):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            s, nx = out[i], out[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(nx, (ast.Return, ast.Expr, ast.If, ast.Assign, ast.Raise)):
                nm = s.targets[0].id
                tot = sum(1 for x in ast.walk(self.root) if isinstance(x, ast.Name) and x.id == nm)
                head = nx.test if isinstance(nx, ast.If) else nx
                # the first evaluated name of the statement
                names = [x for x in ast.walk(head) if isinstance(x, ast.Name) and x.id == nm]
                if tot == 2 and len(names) == 1 and not any(isinstance(x, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.SetComp)) for x in ast.walk(head)) and first_eval(head) is names[0]:
                    out[i + 1] = Subst(nm, s.value).visit(nx)
                    del out[i]
                    continue
            i += 1
        return out

class Subst(ast.NodeTransformer):
    def __init__(self, n, v): self.n, self.v = n, v
    def visit_Name(self, n):
        return self.v if n.id == self.n else n

def first_eval(n):
    while not isinstance(n, ast.Name):
        if isinstance(n, (ast.Return, ast.Expr, ast.Assign)): n = n.value
        elif isinstance(n, ast.Raise): n = n.exc
        elif isinstance(n, ast.Compare): n = n.left
        elif isinstance(n, ast.BoolOp): n = n.values[0]
        elif isinstance(n, ast.UnaryOp): n = n.operand
        elif isinstance(n, ast.Attribute): n = n.value
        elif isinstance(n, ast.Subscript): n = n.value
        elif isinstance(n, ast.Await): n = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id != "super" and n.args: n = n.args[0]
        elif isinstance(n, ast.Call): n = n.func
        elif isinstance(n, ast.Tuple) and n.elts: n = n.elts[0]
        else: return None
        if n is None: return None
    return n

class FConcat(ast.NodeTransformer):
    """f-string -> concatenation / str()"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                if v.format_spec is not None: return n
                parts.append(ast.Call(ast.Name({-1: "str", 114: "repr", 115: "str"}[v.conversion], ast.Load()), [v.value], []))
        if not parts: return n
        out = parts[0]
        for p in parts[1:]: out = ast.BinOp(out, ast.Add(), p)
        return out

class HoistSelf(Body):
    """attr = self.attr read twice or more in a function that never stores it -> hoisted once (pure attributes only)"""

class AnyLoop(Body):
    """return any(c for x in xs) -> loop with return; if any(..): -> flag loop"""
    k = 0
    def fix(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, ast.Return) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all") and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp):
                g = v.args[0]
                self.k += 1
                names = {x.id for c in g.generators for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                ren = Rename({n: f"{n}_a{self.k}" for n in names})
                is_any = v.func.id == "any"
                b = [ast.If(g.elt if is_any else neg(g.elt), [ast.Return(ast.Constant(is_any))], [])]
                for c in reversed(g.generators):
                    for t in reversed(c.ifs): b = [ast.If(t, b, [])]
                    b = [ast.For(c.target, c.iter, b, [])]
                first = b[0].iter
                b = [ren.visit(copy.deepcopy(x)) for x in b]
                b[0].iter = first
                out += b + [ast.Return(ast.Constant(not is_any))]
            elif isinstance(s, ast.If) and isinstance(s.test, ast.Call) and isinstance(s.test.func, ast.Name) and s.test.func.id in ("any", "all") and len(s.test.args) == 1 and isinstance(s.test.args[0], ast.GeneratorExp) and len(s.test.args[0].generators) == 1:
                g = s.test.args[0]
                self.k += 1
                is_any = s.test.func.id == "any"
                names = {x.id for c in g.generators for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                ren = Rename({n: f"{n}_a{self.k}" for n in names})
                fl = f"found_{self.k}"
                b = [ast.If(g.elt if is_any else neg(g.elt), [ast.Assign([ast.Name(fl, ast.Store())], ast.Constant(is_any)), ast.Break()], [])]
                c = g.generators[0]
                for t in reversed(c.ifs): b = [ast.If(t, b, [])]
                loop = ast.For(ren.visit(copy.deepcopy(c.target)), c.iter, [ren.visit(copy.deepcopy(x)) for x in b], [])
                out += [ast.Assign([ast.Name(fl, ast.Store())], ast.Constant(not is_any)), loop, ast.If(ast.Name(fl, ast.Load()), s.body, s.orelse)]
            else:
                out.append(s)
        return out

class GetIn(ast.NodeTransformer):
    """d.get(k) -> d[k] if k in d else None (names and attributes only)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and 1 <= len(n.args) <= 2 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Attribute)) and isinstance(n.func.value, (ast.Name, ast.Attribute)):
            d = n.args[1] if len(n.args) == 2 else ast.Constant(None)
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(n.func.value, n.args[0], ast.Load()), d)
        return n

class SplitIsinst(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], c], []) for c in n.args[1].elts])
        return n

class Append(Body):
    """xs.append(a) -> xs += [a]; xs.extend(y) -> loop append"""
    def fix(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, ast.Expr) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and len(v.args) == 1:
                if v.func.attr == "append":
                    s = ast.Expr(ast.Call(ast.Attribute(v.func.value, "extend", ast.Load()), [ast.List([v.args[0]], ast.Load())], []))
                elif v.func.attr == "extend" and not isinstance(v.args[0], ast.GeneratorExp):
                    s = ast.For(ast.Name("ext_item", ast.Store()), v.args[0], [ast.Expr(ast.Call(ast.Attribute(v.func.value, "append", ast.Load()), [ast.Name("ext_item", ast.Load())], []))], [])
            out.append(s)
        return out

class Reorder(Body):
    """two adjacent assignments of call-free expressions to different names that do not use each other are swapped"""
    def fix(self, body):
        out = list(body)
        i = 0
        def simple(s):
            return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) for x in ast.walk(s)) and not any(isinstance(x, ast.Call) for x in ast.walk(s))
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if simple(a) and simple(b):
                na, nb = a.targets[0].id, b.targets[0].id
                if na != nb and not any(isinstance(x, ast.Name) and x.id == na for x in ast.walk(b)) and not any(isinstance(x, ast.Name) and x.id == nb for x in ast.walk(a)):
                    out[i], out[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return out

def extract_expr(fn, cls, rnd):
    """A condition or returned expression becomes a helper's return value."""
    a = fn.args
    if cls is not None and not (a.args and a.args[0].arg == "self"): return None
    params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | locals_of(fn) | params | {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))}
    c = []
    def rec(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
            if isinstance(ch, (ast.If, ast.IfExp)): c.append((ch, "test"))
            if isinstance(ch, ast.Return) and ch.value is not None: c.append((ch, "value"))
            if isinstance(ch, ast.Assign): c.append((ch, "value"))
            rec(ch)
    rec(fn)
    c = [(n, f) for n, f in c if not isinstance(getattr(n, f), (ast.Name, ast.Constant)) and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.SetComp)) or (isinstance(x, ast.Name) and x.id == "super") for x in ast.walk(getattr(n, f)))]
    if not c: return None
    n, f = rnd.choice(c)
    e = getattr(n, f)
    used = sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & loc)
    s = cls is not None
    ps = [u for u in used if not (s and u == "self")]
    h = ast.FunctionDef("_extracted_part", ast.arguments([], ([ast.arg("self")] if s else []) + [ast.arg(p) for p in ps], None, [], [], None, []), [ast.Return(e)], [], None, None, [])
    setattr(n, f, ast.Call(ast.Attribute(ast.Name("self", ast.Load()), "_extracted_part", ast.Load()) if s else ast.Name("_extracted_part", ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))
    return h

KINDS = ["swapif", "elsenest", "elseflat", "rettemp", "testtemp", "mergeand", "ifexp", "comploop", "loopcomp", "rename", "noop", "kwcalls", "tail", "block", "swapeq", "inline", "fconcat", "anyloop", "getin", "isinst", "append", "reorder", "expr"]
CLS = {"swapif": SwapIf, "elsenest": ElseNest, "elseflat": ElseFlat, "rettemp": RetTemp, "testtemp": TestTemp, "mergeand": MergeAnd, "ifexp": IfExpStmt, "comploop": CompLoop, "loopcomp": LoopComp, "noop": Noop, "swapeq": SwapEq, "inline": InlineTemp, "fconcat": FConcat, "anyloop": AnyLoop, "getin": GetIn, "isinst": SplitIsinst, "append": Append, "reorder": Reorder}

def apply(kind, f, allf, rnd):
    """Returns helper node or True when applied, else None. Works on f.node in place."""
    before = ast.dump(f.node)
    h = None
    if kind == "rename":
        rename_locals(f.node)
    elif kind == "kwcalls":
        KwCalls(allf).visit(f.node)
    elif kind == "expr":
        h = extract_expr(f.node, f.cls, rnd)
        if h is None: return None
    elif kind in ("tail", "block"):
        h = extract_helper(f.node, f.cls, rnd, kind)
        if h is None: return None
    else:
        t = CLS[kind]()
        t.root = f.node
        t.visit(f.node)
    ast.fix_missing_locations(f.node)
    if ast.dump(f.node) == before: return None
    return h or True

def main():
    kinds = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] != "all" else KINDS
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    for kind in kinds:
        rnd = random.Random(seed)
        ref = Program(HERE + "/reference/src"); cur = Program(HERE + "/reference/src")
        allf = list(cur.all_funcs())
        changed = []
        for f in list(allf):
            if pat and pat not in f.key: continue
            r = apply(kind, f, allf, rnd)
            if r is None: continue
            changed.append(f.key)
            if r is not True:
                nm = f"{r.name}_{len(changed)}"
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == "_extracted_part": n.attr = nm
                    if isinstance(n, ast.Name) and n.id == "_extracted_part": n.id = nm
                r.name = nm
                ast.fix_missing_locations(r)
                if f.cls is not None and r.args.args and r.args.args[0].arg == "self":
                    f.cls.node.body.append(r)
                    f.cls.methods[nm] = Func(f.module, nm, f"{f.cls.name}.{nm}", r, f.cls)
                else:
                    f.module.tree.body.append(r)
                    f.module.funcs[nm] = Func(f.module, nm, nm, r)
        pair = Pair(ref, cur); c = Comparator(pair)
        cnt = Counter(); T = time.time()
        c.compare_all(changed, jobs=7, limit=3000)
        for k in changed:
            t = time.time()
            try:
                r = c.compare(k)
            except Exception as e:
                import traceback
                print("CRASH", kind, k, repr(e)[:200]); cnt["crash"] += 1
                if "-v" in sys.argv: traceback.print_exc(limit=-4)
                continue
            cnt[r.status] += 1
            if r.status not in ("equivalent", "identical") or time.time() - t > 25:
                print(f"[{kind}]", r.func, r.status, r.level, r.note, round(time.time() - t, 1))
                if r.mismatch and "NameError" in r.mismatch.detail: cnt[r.status] -= 1; cnt["toolbug"] += 1; continue
                if r.mismatch and "-q" not in sys.argv: print("     ", r.mismatch.detail[:int(os.environ.get("W","700"))])
        print(kind, dict(cnt), f"{time.time()-T:.0f}s", flush=True)

if __name__ == "__main__":
    main()
