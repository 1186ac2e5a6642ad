#!/usr/bin/env python3
"""mutate one function of /repo in a scratch copy and list the mutants that the given properties do not report.
usage: mutate.py FILE[:FUNC] PROP[,PROP] [-a]      (development aid; nothing is executed)"""
import ast, copy, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from sa.main import load_specs, decide, known
from sa.program import Program, AnalysisBroken
from sa import spec as S


def mutants(fn):
    """yield (description, mutated copy of fn)"""
    nodes = list(ast.walk(fn))
    def variant(i, f):
        c = copy.deepcopy(fn); n = list(ast.walk(c))[i]; f(n); return c
    def replace(i, new):
        c = copy.deepcopy(fn); target = list(ast.walk(c))[i]
        class R(ast.NodeTransformer):
            def visit(self, n):
                if n is target: return new(n)
                return self.generic_visit(n)
        return R().visit(c)
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) :
            yield f"{ln}: negate {ast.unparse(n.test)[:50]}", variant(i, lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.If):
            yield f"{ln}: if True {ast.unparse(n.test)[:50]}", variant(i, lambda m: setattr(m, "test", ast.Constant(True)))
            yield f"{ln}: if False {ast.unparse(n.test)[:50]}", variant(i, lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.Compare):
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            t = sw.get(type(n.ops[0]))
            if t: yield f"{ln}: op {ast.unparse(n)[:60]}", variant(i, lambda m: m.ops.__setitem__(0, t()))
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                neg = isinstance(n.ops[0], ast.Is)
                yield f"{ln}: truthy {ast.unparse(n)[:60]}", replace(i, lambda m: ast.UnaryOp(ast.Not(), m.left) if neg else m.left)
        if isinstance(n, ast.BoolOp):
            yield f"{ln}: and/or {ast.unparse(n)[:60]}", variant(i, lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                yield f"{ln}: drop operand {k} {ast.unparse(n)[:60]}", variant(i, lambda m: m.values.pop(k))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            for d in (1, -1): yield f"{ln}: const {n.value}->{n.value+d}", variant(i, lambda m: setattr(m, "value", m.value + d))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield f"{ln}: const {n.value}", variant(i, lambda m: setattr(m, "value", not m.value))
        if isinstance(n, ast.Constant) and n.value is None:
            yield f"{ln}: None->0", variant(i, lambda m: setattr(m, "value", 0))
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}
            t = sw.get(type(n.op))
            if t: yield f"{ln}: binop {ast.unparse(n)[:60]}", variant(i, lambda m: setattr(m, "op", t()))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2: yield f"{ln}: swap args {ast.unparse(n)[:70]}", variant(i, lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
            if len(n.args) == 1 and not n.keywords: yield f"{ln}: call->arg {ast.unparse(n)[:70]}", replace(i, lambda m: m.args[0])
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend"):
                o = "extend" if n.func.attr == "append" else "append"
                yield f"{ln}: {n.func.attr}->{o}", variant(i, lambda m: setattr(m.func, "attr", o))
                yield f"{ln}: {n.func.attr}->insert0", replace(i, lambda m: ast.Call(ast.Attribute(m.func.value, "insert", ast.Load()), [ast.Constant(0), m.args[0]], []))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "lower", "strip", "fullmatch"):
                yield f"{ln}: drop .{n.func.attr}()", replace(i, lambda m: m.func.value) if not n.args else replace(i, lambda m: ast.Call(ast.Attribute(m.func.value, "match", ast.Load()), m.args, []))
        if isinstance(n, ast.For):
            yield f"{ln}: for rest", variant(i, lambda m: setattr(m, "iter", ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(ast.Constant(1)), ast.Load())))
            yield f"{ln}: for reversed", variant(i, lambda m: setattr(m, "iter", ast.Call(ast.Name("reversed", ast.Load()), [m.iter], [])))
            yield f"{ln}: for break", variant(i, lambda m: m.body.append(ast.Break()))
        if isinstance(n, ast.comprehension):
            yield f"{getattr(n.iter,'lineno',0)}: comp reversed", variant(i, lambda m: setattr(m, "iter", ast.Call(ast.Name("reversed", ast.Load()), [m.iter], [])))
            for k in range(len(n.ifs)): yield f"{getattr(n.iter,'lineno',0)}: comp drop if", variant(i, lambda m: m.ifs.pop(k))
        if isinstance(n, ast.Return) and n.value is not None:
            yield f"{ln}: return []", variant(i, lambda m: setattr(m, "value", ast.List([], ast.Load())))
            yield f"{ln}: return None", variant(i, lambda m: setattr(m, "value", ast.Constant(None)))
        if isinstance(n, ast.Slice):
            if n.lower: yield f"{ln}: slice lower", variant(i, lambda m: setattr(m, "lower", None))
            if n.upper: yield f"{ln}: slice upper", variant(i, lambda m: setattr(m, "upper", None))
        if isinstance(n, ast.Lambda): yield f"{ln}: lambda neg", variant(i, lambda m: setattr(m, "body", ast.UnaryOp(ast.USub(), m.body)))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
                    if isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.ClassDef)): continue
                    def rm(m, k=k, fld=fld):
                        l = getattr(m, fld); l[k] = ast.Pass()
                    yield f"{s.lineno}: delete {ast.unparse(s)[:60]!r}", variant(i, rm)
                    if k + 1 < len(b) and not isinstance(s, (ast.Return, ast.Raise)):
                        def sw2(m, k=k, fld=fld):
                            l = getattr(m, fld); l[k], l[k+1] = l[k+1], l[k]
                        yield f"{s.lineno}: swap stmts {ast.unparse(s)[:40]!r}", variant(i, sw2)


def main():
    target, props = sys.argv[1], sys.argv[2].split(",")
    show_all = "-a" in sys.argv
    file, _, fname = target.partition(":")
    load_specs()
    if props == ["ALL"]: props = sorted(S.SPECS)
    d = tempfile.mkdtemp(prefix="mut"); repo = os.path.join(d, "repo")
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    p = os.path.join(repo, file); src = open(p).read(); tree = ast.parse(src)
    n = det = und = 0
    try:
        fns = [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef) and (not fname or x.name in fname.split(","))]
        for fn in fns:
            for desc, m in mutants(fn):
                class R(ast.NodeTransformer):
                    def visit_FunctionDef(self, q):
                        return m if q.name == fn.name and q.lineno == fn.lineno else self.generic_visit(q)
                t2 = R().visit(copy.deepcopy(tree)); ast.fix_missing_locations(t2)
                try: out = ast.unparse(t2)
                except Exception: continue
                open(p, "w").write(out); n += 1
                hits = []; un = []
                for pid in props:
                    try: c = decide(pid, Program(repo))
                    except (AnalysisBroken, SyntaxError) as x: hits.append(pid + "!broken"); continue
                    kn = {k for k, _ in known(pid)}
                    if any(o.verdict == S.VIOLATED and o.key not in kn for o in c.obs): hits.append(pid)
                    elif any(o.verdict == S.UNKNOWN for o in c.obs): un.append(pid + ":" + next(o.key + " " + o.msg[:40] for o in c.obs if o.verdict == S.UNKNOWN))
                if hits and not all("!" in h for h in hits): det += 1
                else: und += bool(un)
                if show_all or not hits or all("!" in h for h in hits): print(f"{fn.name} {desc}  -> {hits} {'UND ' + ' '.join(un) if un else ''}", flush=True)
        print(f"{n} mutants, {det} reported, {und} undecided")
    finally: shutil.rmtree(d)
main()
