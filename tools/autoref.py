"""Mechanical behaviour-preserving rewrites, applied to the whole of richard/ at once.

usage: autoref.py [transform…]     every check must stay quiet on each of them
Each transform is applied to a scratch copy of /repo; the stable tests run there, then all specs."""
import ast, os, sys, shutil, subprocess, json, re, copy
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
N = [0]
def fresh(p="tmp"):
    N[0] += 1; return f"{p}_{N[0]}"
def name(x, store=False): return ast.Name(x, ast.Store() if store else ast.Load())
def assign(x, v): return ast.Assign([name(x, True)], v)
def bodies(n):
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(n, fld, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt): yield fld, b
def blocks(f, g):
    """rewrite every statement list inside f with g(list) -> list"""
    for n in ast.walk(f):
        for fld, b in list(bodies(n)): setattr(n, fld, g(b))
        if isinstance(n, ast.Try):
            for h in n.handlers: pass
def functions(t): return [n for n in ast.walk(t) if isinstance(n, FN)]
def gen(f): return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for n in ast.walk(f))
def stored(f):
    out = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
    return out
def args_of(f): return [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs] + ([f.args.vararg.arg] if f.args.vararg else []) + ([f.args.kwarg.arg] if f.args.kwarg else [])
def nested(f): return any(isinstance(n, FN + (ast.Lambda, ast.ClassDef)) and n is not f for n in ast.walk(f))

def rename_locals(t):
    for f in functions(t):
        if any(isinstance(n, FN + (ast.ClassDef,)) and n is not f for n in ast.walk(f)) or gen(f): continue
        loc = stored(f) - set(args_of(f))
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc: n.id += "_v"
            if isinstance(n, ast.ExceptHandler) and n.name in loc: n.name += "_v"
def rename_params(t):
    for f in functions(t):
        if any(isinstance(n, FN + (ast.ClassDef,)) and n is not f for n in ast.walk(f)) or f.name == "__init__": continue
        ps = {a.arg for a in f.args.args if a.arg not in ("self", "cls")}
        if f.args.defaults: ps -= {a.arg for a in f.args.args[-len(f.args.defaults):]}
        lam = {a.arg for n in ast.walk(f) if isinstance(n, ast.Lambda) for a in n.args.args}
        ps -= lam
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in ps: n.id += "_p"
            if isinstance(n, ast.arg) and n.arg in ps: n.arg += "_p"
def return_temp(t):
    def g(b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                x = fresh("result"); out += [assign(x, s.value), ast.Return(name(x))]
            else: out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def negate(e):
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        return ast.Compare(e.left, [m[type(e.ops[0])]()], e.comparators)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return e.operand
    return ast.UnaryOp(ast.Not(), e)
def invert_if(t):
    for n in ast.walk(t):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = negate(n.test); n.body, n.orelse = n.orelse, n.body
        if isinstance(n, ast.IfExp): n.test = negate(n.test); n.body, n.orelse = n.orelse, n.body
def ends(b): return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
def guard_else(t):
    def g(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and b[i + 1:]:
                s.orelse = g(b[i + 1:]); return b[:i + 1]
        return b
    for f in functions(t): blocks(f, g)
def else_guard(t):
    def g(b):
        out = []
        for i, s in enumerate(b):
            out.append(s)
            if isinstance(s, ast.If) and ends(s.body) and s.orelse:
                rest = s.orelse; s.orelse = []; return out + g(rest + b[i + 1:])
        return out
    for f in functions(t):
        blocks(f, g)
def guard_continue(t):
    """for …: if c: A   ->   for …: if not c: continue; A"""
    for n in ast.walk(t):
        if isinstance(n, ast.For) and len(n.body) >= 1 and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            s = n.body[-1]; n.body = n.body[:-1] + [ast.If(negate(s.test), [ast.Continue()], [])] + s.body
def nest_guard(t):
    """if c: A (last statement of the function, or loop)  ->  guarded exit"""
    for f in functions(t):
        if gen(f): continue
        s = f.body[-1]
        if isinstance(s, ast.If) and not s.orelse and not ends(s.body):
            f.body = f.body[:-1] + [ast.If(negate(s.test), [ast.Return(None)], [])] + s.body
def comp_loop(t):
    """x = [e for …]  /  return [e for …]   ->   loop with append"""
    def loops(c, leaf):
        for gn in reversed(c.generators):
            for i in reversed(gn.ifs): leaf = [ast.If(i, leaf, [])]
            leaf = [ast.For(gn.target, gn.iter, leaf, [])]
        return leaf
    def g(b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.AnnAssign)) else None
            if isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and (isinstance(s, ast.Return) or isinstance(s, ast.AnnAssign) or len(s.targets) == 1):
                x = fresh("items")
                if isinstance(v, ast.DictComp):
                    init = ast.Dict([], []); leaf = [ast.Assign([ast.Subscript(name(x), v.key, ast.Store())], v.value)]
                else:
                    init = ast.List([], ast.Load()) if isinstance(v, ast.ListComp) else ast.Call(name("set"), [], [])
                    leaf = [ast.Expr(ast.Call(ast.Attribute(name(x), "append" if isinstance(v, ast.ListComp) else "add", ast.Load()), [v.elt], []))]
                ren = {m.id: m.id + "_c" for gn in v.generators for m in ast.walk(gn.target) if isinstance(m, ast.Name)}
                for m in ast.walk(v):
                    if isinstance(m, ast.Name) and m.id in ren: m.id = ren[m.id]
                out += [assign(x, init)] + loops(v, leaf)
                s.value = name(x)
            out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def loop_comp(t):
    """x = []; for a in b: x.append(e)  ->  x = [e for a in b]"""
    def one(x, l):
        if not (isinstance(l, ast.For) and not l.orelse and len(l.body) == 1): return None
        s = l.body[0]; ifs = []
        while isinstance(s, ast.If) and not s.orelse and len(s.body) == 1: ifs.append(s.test); s = s.body[0]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == x:
            e = s.value.args[0]
            if any(isinstance(m, ast.Name) and m.id == x for y in [e, l.iter] + ifs for m in ast.walk(y)): return None
            return ast.ListComp(e, [ast.comprehension(l.target, l.iter, ifs, 0)])
    def g(b):
        out = []; i = 0
        while i < len(b):
            s = b[i]
            tgt = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and s.value else None
            if isinstance(tgt, ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and i + 1 < len(b):
                c = one(tgt.id, b[i + 1])
                if c is not None: s.value = c; out.append(s); i += 2; continue
            out.append(s); i += 1
        return out
    for f in functions(t): blocks(f, g)
def swap_compare(t):
    m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    for n in ast.walk(t):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m:
            n.left, n.comparators[0] = n.comparators[0], n.left; n.ops = [m[type(n.ops[0])]()]
def not_compare(t):
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotEq, ast.IsNot, ast.NotIn, ast.GtE, ast.LtE)): return ast.UnaryOp(ast.Not(), negate(n))
            return n
    T().visit(t)
def aug_plain(t):
    class T(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name): return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
            return n
    T().visit(t)
def plain_aug(t):
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            v = n.value
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == n.targets[0].id and isinstance(v.right, (ast.Constant, ast.JoinedStr)):
                return ast.AugAssign(n.targets[0], v.op, v.right)
            return n
    T().visit(t)
def hoist_args(t):
    """each call nested as first argument of a statement-level call gets a temporary"""
    def g(b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
            if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and all(isinstance(x, (ast.Name, ast.Attribute, ast.Load)) for x in ast.walk(v.func)):
                pre = []
                for i, a in enumerate(v.args):
                    if isinstance(a, ast.Starred) or isinstance(a, (ast.Constant, ast.Name, ast.Lambda)): continue
                    x = fresh("arg"); pre.append(assign(x, a)); v.args[i] = name(x)
                out += pre
            out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def hoist_test(t):
    def g(b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                x = fresh("cond"); out.append(assign(x, s.test)); s.test = name(x)
            out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def hoist_iter(t):
    def g(b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                x = fresh("seq"); out.append(assign(x, s.iter)); s.iter = name(x)
            out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def split_and(t):
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
                b = n.body
                for v in reversed(n.test.values[1:]): b = [ast.If(v, b, [])]
                return ast.If(n.test.values[0], b, [])
            return n
    T().visit(t)
def split_or(t):
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or):
                o = n.orelse
                for v in reversed(n.test.values): o = [ast.If(v, copy.deepcopy(n.body), o)]
                return o[0]
            return n
    T().visit(t)
def join_if(t):
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
                return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
            return n
    T().visit(t)
def ternary_if(t):
    def g(b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.IfExp):
                a, o = copy.copy(s), copy.copy(s); a.value, o.value = v.body, v.orelse
                out.append(ast.If(v.test, [a], [o]))
            else: out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def if_ternary(t):
    def g(b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and type(s.body[0]) == type(s.orelse[0]):
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and x.value and y.value: out.append(ast.Return(ast.IfExp(s.test, x.value, y.value))); continue
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    out.append(ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))); continue
            out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def empty_test(t):
    """len(x) == 0 -> not x ; len(x) > 0 -> x   in if tests (only lists, strings, dicts and sets are measured in this code)"""
    def conv(e):
        if isinstance(e, ast.BoolOp): e.values = [conv(v) for v in e.values]; return e
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): e.operand = conv(e.operand); return e
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Name) and e.left.func.id == "len" and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value == 0:
            if isinstance(e.ops[0], ast.Eq): return ast.UnaryOp(ast.Not(), e.left.args[0])
            if isinstance(e.ops[0], (ast.Gt, ast.NotEq)): return e.left.args[0]
        return e
    for n in ast.walk(t):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)): n.test = conv(n.test)
def fstr_concat(t):
    class T(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion != -1) for v in n.values) or not n.values: return n
            ps = [v if isinstance(v, ast.Constant) else ast.Call(name("str"), [v.value], []) for v in n.values]
            if len(ps) == 1: return ps[0]
            r = ps[0]
            for q in ps[1:]: r = ast.BinOp(r, ast.Add(), q)
            return r
    T().visit(t)
def concat_fstr(t):
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            fl = []
            def flat(e):
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add): flat(e.left); flat(e.right)
                else: fl.append(e)
            flat(n)
            if not isinstance(n.op, ast.Add) or not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in fl): return self.generic_visit(n)
            if not all(isinstance(x, ast.Constant) and isinstance(x.value, str) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "str" and len(x.args) == 1 for x in fl): return self.generic_visit(n)
            return ast.JoinedStr([x if isinstance(x, ast.Constant) else ast.FormattedValue(x.args[0], -1, None) for x in fl])
    T().visit(t)
def wrap_impl(t):
    """every method's body moves to a helper method with the same parameters"""
    for c in [n for n in ast.walk(t) if isinstance(n, ast.ClassDef)]:
        new = []
        for f in c.body:
            new.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or f.name.startswith("__") or gen(f) or f.args.vararg or f.args.kwarg or f.args.kwonlyargs or "abstract" in ast.dump(f) or not f.args.args or f.args.args[0].arg != "self": continue
            if "super" in ast.dump(f): continue
            if len(f.body) < 2: continue
            h = ast.FunctionDef(f"do_{f.name}", ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, []), f.body, [], None)
            f.body = [ast.Return(ast.Call(ast.Attribute(name("self"), h.name, ast.Load()), [name(a.arg) for a in f.args.args[1:]], []))]
            new.append(h)
        c.body = new
def free(nodes): return {m.id for n in nodes for m in ast.walk(n) if isinstance(m, ast.Name)}
def extract(t, pick):
    """pick(f) -> list of (statement list, index): the statements become a helper method"""
    for c in [n for n in ast.walk(t) if isinstance(n, ast.ClassDef)]:
        extra = []
        for f in list(c.body):
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or gen(f) or not f.args.args or f.args.args[0].arg != "self": continue
            loc = stored(f) | set(args_of(f))
            for body, i, j in pick(f):
                part = body[i:j]
                wr = {m.id for n in part for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del))}
                if any(isinstance(m, (ast.Return, ast.Break, ast.Continue, ast.Lambda, ast.Try)) and not inloop(m, part) for n in part for m in ast.walk(n)): continue
                ids = {id(m) for n in part for m in ast.walk(n)}
                outside = [m.id for m in ast.walk(f) if isinstance(m, ast.Name) and id(m) not in ids]
                outs = sorted(w for w in wr if w in outside)
                ins = sorted((free(part) & loc) - {"self"})
                first = {}
                ins = [x for x in ins if x not in wr or x in outside]
                pure_new = [x for x in ins if x in wr and x not in args_of(f) and not any(m.id == x and isinstance(m.ctx, ast.Store) and id(m) not in ids for m in ast.walk(f) if isinstance(m, ast.Name))]
                ins = [x for x in ins if x not in pure_new]
                if len(outs) > 1 or len(part) == 0: continue
                h = fresh(f"part_of_{f.name.strip('_')}")
                call = ast.Call(ast.Attribute(name("self"), h, ast.Load()), [name(x) for x in ins], [])
                hb = part + ([ast.Return(name(outs[0]))] if outs else [])
                extra.append(ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in ins], None, [], [], None, []), hb, [], None))
                body[i:j] = [assign(outs[0], call) if outs else ast.Expr(call)]
        c.body += extra
def inloop(m, part):
    if isinstance(m, (ast.Return, ast.Lambda, ast.Try)): return False
    return any(m is x for n in part for l in ast.walk(n) if isinstance(l, (ast.For, ast.While)) for x in ast.walk(l))
def extract_loop_body(t):
    extract(t, lambda f: [(n.body, 0, len(n.body)) for n in f.body if isinstance(n, ast.For)])
def extract_loop(t):
    extract(t, lambda f: [(f.body, i, i + 1) for i, n in reversed(list(enumerate(f.body))) if isinstance(n, ast.For)])
def extract_if_body(t):
    extract(t, lambda f: [(n.body, 0, len(n.body)) for n in f.body if isinstance(n, ast.If) and len(n.body) > 1])
def extract_test(t):
    """the test of an if becomes a helper method"""
    for c in [n for n in ast.walk(t) if isinstance(n, ast.ClassDef)]:
        extra = []
        for f in list(c.body):
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or not f.args.args or f.args.args[0].arg != "self" or any(isinstance(n, FN) and n is not f for n in ast.walk(f)): continue
            loc = stored(f) | set(args_of(f))
            for n in ast.walk(f):
                if isinstance(n, ast.If) and not isinstance(n.test, ast.Name) and not any(isinstance(m, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.NamedExpr)) for m in ast.walk(n.test)):
                    h = fresh("holds"); ins = sorted((free([n.test]) & loc) - {"self"})
                    extra.append(ast.FunctionDef(h, ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in ins], None, [], [], None, []), [ast.Return(n.test)], [], None))
                    n.test = ast.Call(ast.Attribute(name("self"), h, ast.Load()), [name(x) for x in ins], [])
        c.body += extra
def extract_value(t):
    """the value of an assignment becomes a module level helper function"""
    top = []
    for c in [n for n in ast.walk(t) if isinstance(n, ast.ClassDef)]:
        for f in list(c.body):
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or any(isinstance(n, FN) and n is not f for n in ast.walk(f)): continue
            loc = stored(f) | set(args_of(f))
            for n in ast.walk(f):
                if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.BinOp, ast.ListComp, ast.Compare, ast.BoolOp)) and not any(isinstance(m, (ast.Lambda, ast.NamedExpr)) or isinstance(m, ast.Name) and m.id == "super" for m in ast.walk(n.value)):
                    own = {m.id for m in ast.walk(n.value) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
                    h = fresh("make"); ins = sorted((free([n.value]) & loc) - own)
                    top.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), [ast.Return(n.value)], [], None))
                    n.value = ast.Call(name(h), [name(x) for x in ins], [])
    t.body += top
def for_while(t):
    """for x in xs -> while over an index, for plain lists named by a variable or attribute"""
    def g(b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and not any(isinstance(m, ast.Continue) for m in ast.walk(s)) and not s.orelse:
                lim = fresh("limit")
                out += [assign(lim, s.iter.args[0]), assign(s.target.id, ast.Constant(0)), ast.While(ast.Compare(name(s.target.id), [ast.Lt()], [name(lim)]), s.body + [ast.AugAssign(name(s.target.id, True), ast.Add(), ast.Constant(1))], [])]
            else: out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def enum_range(t):
    class T(ast.NodeTransformer):
        def visit_For(self, n):
            self.generic_visit(n)
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.iter.args[0], (ast.Name, ast.Attribute)):
                xs = n.iter.args[0]; i, x = n.target.elts
                n.target = i; n.iter = ast.Call(name("range"), [ast.Call(name("len"), [xs], [])], [])
                n.body = [ast.Assign([x], ast.Subscript(xs, name(i.id), ast.Load()))] + n.body
            return n
    T().visit(t)
def tuple_unpack_off(t):
    """a, b = x -> a = x[0]; b = x[1]  (x a name)"""
    def g(b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Name) and all(isinstance(e, ast.Name) for e in s.targets[0].elts):
                for i, e in enumerate(s.targets[0].elts): out.append(ast.Assign([e], ast.Subscript(s.value, ast.Constant(i), ast.Load())))
            else: out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def early_false(t):
    """return a and b -> if not a: return False; return b   (only comparisons)"""
    isb = lambda e: isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)
    def g(b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.BoolOp) and all(isb(v) for v in s.value.values):
                isand = isinstance(s.value.op, ast.And)
                for v in s.value.values[:-1]: out.append(ast.If(negate(v) if isand else v, [ast.Return(ast.Constant(not isand))], []))
                out.append(ast.Return(s.value.values[-1]))
            else: out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def annotate(t):
    def g(b): return [ast.AnnAssign(s.targets[0], name("object"), s.value, 1) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else s for s in b]
    for f in functions(t):
        if not gen(f): blocks(f, g)
def self_alias(t):
    """self.x used more than once, never assigned here, and self passed to nobody: model = self.model at the start"""
    for f in functions(t):
        if f.name == "__init__" or gen(f) or any(isinstance(n, FN + (ast.Lambda,)) and n is not f for n in ast.walk(f)) or not f.args.args or f.args.args[0].arg != "self": continue
        if any(isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and m.value.id == "self" and not isinstance(m.ctx, ast.Load) for m in ast.walk(f)): continue
        called = {id(m.func) for m in ast.walk(f) if isinstance(m, ast.Call)}
        if any(isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and isinstance(m.func.value, ast.Name) and m.func.value.id == "self" for m in ast.walk(f)): continue
        cnt = {}
        for m in ast.walk(f):
            if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and m.value.id == "self" and id(m) not in called: cnt.setdefault(m.attr, []).append(m)
        if not cnt: continue
        used = free([f])
        class T(ast.NodeTransformer):
            def visit_Attribute(self, n):
                if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in cnt and id(n) not in called: return name("own_" + n.attr)
                self.generic_visit(n); return n
        doc = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body = [T().visit(s) for s in f.body]
        f.body[doc:doc] = [assign("own_" + a, ast.Attribute(name("self"), a, ast.Load())) for a in cnt]
def any_loop(t): pass
def extend_loop(t):
    """x.extend(y) -> for e in y: x.append(e)"""
    def g(b):
        out = []
        for s in b:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "extend" and len(s.value.args) == 1:
                x = fresh("element")
                out.append(ast.For(name(x, True), s.value.args[0], [ast.Expr(ast.Call(ast.Attribute(s.value.func.value, "append", ast.Load()), [name(x)], []))], []))
            else: out.append(s)
        return out
    for f in functions(t): blocks(f, g)
def dict_merge(t):
    """x | {..} -> {**x, ..}"""
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.BitOr) and (isinstance(n.right, ast.Dict)): return ast.Dict([None] + n.right.keys, [n.left] + n.right.values)
            return n
    T().visit(t)
def default_kw(t): pass
def eq_none(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            if isinstance(n.ops[0], ast.Is): n.ops = [ast.Eq()]
            elif isinstance(n.ops[0], ast.IsNot): n.ops = [ast.NotEq()]
            elif isinstance(n.ops[0], ast.Eq): n.ops = [ast.Is()]
            elif isinstance(n.ops[0], ast.NotEq): n.ops = [ast.IsNot()]
def list_add(t):
    """x + [a] -> [*x, a];  [a] + x -> [a, *x]"""
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Add) and (isinstance(n.right, ast.List) or isinstance(n.left, ast.List)):
                e = []
                for x in (n.left, n.right): e += x.elts if isinstance(x, ast.List) else [ast.Starred(x, ast.Load())]
                return ast.List(e, ast.Load())
            return n
    T().visit(t)
def swap_isinstance(t):
    pass
T = {k: v for k, v in list(globals().items()) if callable(v) and getattr(v, "__code__", None) and v.__code__.co_varnames[:1] == ("t",) and v.__code__.co_argcount == 1 and k not in ("functions", "any_loop", "default_kw", "swap_isinstance")}

def tests(d):
    o = d + ".xml"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d, PYTHONHASHSEED="0")
    subprocess.run(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --rootdir={d} --import-mode=importlib -o python_files='*_test.py test.py test_*.py' -W ignore -o junit_family=xunit2 --junitxml={o} tests",
        cwd=d, env=env, shell=True, capture_output=True, timeout=600)
    ok = {tc.get("classname") + "::" + tc.get("name") for tc in ET.parse(o).iter("testcase")
          if not any(ch.tag in ("failure", "error", "skipped") for ch in tc)}
    os.remove(o)
    return stable - ok
def one(nm):
    d = f"/tmp/ar.{os.getpid()}.{nm}"
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    try:
        n = 0
        for dp, _, fs in os.walk(d + "/richard"):
            for x in fs:
                if not x.endswith(".py"): continue
                p = os.path.join(dp, x); src = open(p, encoding="utf-8").read(); t = ast.parse(src)
                before = ast.dump(t)
                for q in nm.split("+"): T[q](t); ast.fix_missing_locations(t); t = ast.parse(ast.unparse(t))
                if ast.dump(t) != before: n += 1; open(p, "w", encoding="utf-8").write(ast.unparse(t) + "\n")
        miss = tests(d)
        r = subprocess.run(["python3", here + "/check.py", "ALL", "--repo", d], capture_output=True, text=True, cwd=here)
        bad = [l.strip()[:230] for l in r.stdout.splitlines() if "VIOLATION" in l or "BROKEN" in l]
        if r.returncode not in (0, 1): bad.append(f"rc={r.returncode} " + r.stderr.strip()[-200:])
        lines = [l.rstrip()[:330] for l in r.stdout.splitlines() if l.startswith("  ")]
        und = sum(int(m.group(1)) for m in re.finditer(r"undecided=(\d+)", r.stdout))
        if os.environ.get("KEEP"): shutil.rmtree(os.environ["KEEP"] + "/richard", ignore_errors=True); shutil.copytree(d + "/richard", os.environ["KEEP"] + "/richard")
        return ("ALARM " if bad else "quiet ") + f"{nm} files={n} undecided={und}" + (f" TESTS {sorted(miss)[:3]}" if miss else "") + "".join("\n      " + b for b in bad + lines)
    finally: shutil.rmtree(d)
if __name__ == "__main__":
    todo = sys.argv[1:] or list(T)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, todo): print(r, flush=True)
