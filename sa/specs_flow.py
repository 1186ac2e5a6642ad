"""Whole-program properties decided on information flow: X01 (order, hash, time), X03 (logging), X04 (errors)."""
import ast
from .spec import spec
from .specs_effects import view
from .flow import flow_of


def flow(c):
    V = view(c)
    F = flow_of(c.prog, set(V.roots))
    c.callsites += F.calls
    if not F.converged: c.ob(c.pid + ".fixpoint", None, "package", "the flow analysis did not reach a fixed point")
    return V, F


def report(c, F, kind, key, ok):
    by = {}
    for x in F.findings:
        if x.kind == kind: by.setdefault(id(x.func.node), []).append(x)
    for k, f in F.funcs.items():
        if k not in by:
            if not isinstance(f.node, ast.Lambda): c.ob(key, True, c.where(f), ok)
            continue
        for x in by[k]: c.ob(key, x.verdict, f"{f.module.rel}:{x.line} {f.qual}", x.msg)


@spec("X01", least=150, tech="flow")
def deterministic(c):
    V, F = flow(c)
    report(c, F, "X", "X01.determined", "nothing that leaves the function depends on the order of a set, on a hash, identity, time or chance")


@spec("X03", least=150, tech="flow")
def logging(c):
    V, F = flow(c)
    report(c, F, "G", "X03.independent", "nothing that leaves the function depends on the logger, and no code outside it runs only when logging")
    # what is called in order to log changes the log only
    for fid, f in F.funcs.items():
        if f.cls is None or f.parent is not None: continue
        logs = f.cls.name == "Logger" and f.name != "__init__" or f.name in ("log", "log_product") or f.name in ("__str__", "__repr__", "__format__")
        if not logs: continue
        bad = None
        for k, (v, sure, how, own) in V.E.sum[fid].effects.items():
            if log_only(V, k, own): continue
            bad = (k, sure, how); break
        if bad is None: c.ob("X03.readonly", True, c.where(f), "changes nothing except the log")
        else: c.ob("X03.readonly", False if bad[1] else None, f"{V.where(bad[0][2])} {f.qual}", f"changes {V.name(bad[0][0])} ({bad[2]})")


def log_only(V, k, own):
    if own is not None and V.cls_name(own) == "Logger": return True
    l = k[0]
    while True:
        t = V.E.type_of(l)
        if t and t[0] == "cls" and V.prog.classes[t[1]].name == "Logger": return True
        if l[0] not in ("f", "o"): return False
        l = l[1]


# ---------------------------------------------------------------- X04
CACHE_IO = ("open", "pickle.", "json.load", "json.dump", "os.", "io.", "pathlib.", "tempfile.", "shutil.")
PURE_EXT = ("hashlib.", "re.", "math.", "itertools.", "copy.", "collections.", "functools.", "operator.", "string.", "textwrap.", "unicodedata.", "time.", "datetime.", "builtins.")
FILE_METHODS = {"read", "write", "close", "flush", "readline", "readlines", "hexdigest", "digest", "encode", "decode", "exists", "unlink", "mkdir", "seek"}
SOURCE_METHODS = {"execute", "executemany", "executescript", "fetchall", "fetchone", "fetchmany", "commit", "rollback", "cursor", "connect", "query", "get", "post", "request", "json", "raise_for_status"}


class Risk:
    """what may run, and fail, inside a piece of code: code of users of the library, and data sources"""
    def __init__(self, V, F): self.V = V; self.F = F; self.memo = {}

    def nodes(self, body):
        todo = list(body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): continue
            todo += list(ast.iter_child_nodes(n))

    def of(self, body, seen=()):
        """(reason, certain) or None"""
        for n in self.nodes(body):
            if not isinstance(n, ast.Call): continue
            for kind, what in self.F.targets.get(id(n), ()):
                r = self.target(kind, what, seen)
                if r: return (r, n.lineno)
        return None

    def target(self, kind, what, seen):
        if kind == "u": return f"{what}()"
        if kind == "m" and what in SOURCE_METHODS: return f"{what}() of a data source"
        if kind == "x":
            top = what.split(".")[0]
            if top in ("requests", "sqlite3", "mysql", "psycopg2", "urllib", "http", "socket", "subprocess"): return f"{what}()"
            return None
        if kind == "f": return self.func(what, seen)
        return None

    def func(self, fid, seen):
        f = self.F.funcs[fid]
        if fid in seen: return None
        if fid in self.memo: return self.memo[fid]
        if f.stub():
            r = None if self.observer(f) else f"{f.qual.split('.', 1)[-1]}()"
        else:
            x = self.of(f.body, seen + (fid,)); r = f"{f.qual.split('.', 1)[-1]}(), which runs {x[0]}" if x else None
            if r is None and f.ctxman: r = None
        if not seen: self.memo[fid] = r
        return r

    def observer(self, f):
        """an interface operation that only tells something about an object"""
        ms = self.V.E.methods(("cls", f.cls.qual), f.name) if f.cls is not None else [f]
        return f.name.startswith("log") or all(not self.V.E.sum[id(m.node)].effects for m in ms) and all(m.stub() or m is f or not self.calls_out(m) for m in ms)

    def calls_out(self, m): return any(isinstance(n, ast.Call) and any(k in ("u", "m") or k == "f" for k, w in self.F.targets.get(id(n), ())) for n in self.nodes(m.body))


def completes(body):
    """may this block end normally (or leave the function) instead of raising?"""
    for s in body:
        if isinstance(s, ast.Raise): return False
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)): return True
        if isinstance(s, ast.If) and s.orelse and not completes(s.body) and not completes(s.orelse): return False
        if isinstance(s, ast.With) and not completes(s.body): return False
        if isinstance(s, ast.Try) and not s.handlers and not completes(s.body): return False
        if isinstance(s, ast.If) and any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in ast.walk(s)): return True
    return True


@spec("X04", least=150, tech="flow")
def errors_reach_caller(c):
    V, F = flow(c)
    R = Risk(V, F)
    for fid, f in F.funcs.items():
        if isinstance(f.node, ast.Lambda): continue
        n0 = 0
        for n in R.nodes(f.body):
            w = f"{f.module.rel}:{getattr(n, 'lineno', 0)} {f.qual}"
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                n0 += 1
                inner = R.of(n.body)
                y = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in n.body for x in ast.walk(b)) and f.ctxman
                for h in n.handlers:
                    if not completes(h.body): c.ob("X04.handler", True, w, "the error is raised again"); continue
                    t = ast.unparse(h.type) if h.type is not None else "every error"
                    if inner: c.ob("X04.handler", False, w, f"{t} raised by {inner[0]} (line {inner[1]}) is caught and not raised again")
                    elif y: c.ob("X04.handler", False, w, f"{t} raised in the body of a with statement is caught and not raised again")
                    else:
                        odd = unknown(R, F, n.body)
                        c.ob("X04.handler", None if odd else True, w, f"{t} is handled around {odd}" if odd else f"no code of predicates, data sources or processors runs where {t} is handled")
                for b in n.finalbody:
                    for x in own_walk(b):
                        if isinstance(x, ast.Return) or isinstance(x, (ast.Break, ast.Continue)) and not in_loop(b, x):
                            bad = inner or (("", 0) if y else None)
                            c.ob("X04.finally", False if bad else True, f"{f.module.rel}:{x.lineno} {f.qual}", f"leaving the finally block drops an error raised by {inner[0]}" if inner else "leaves a finally block")
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    sw = swallows(c, V, F, i.context_expr)
                    if sw is False: continue
                    n0 += 1
                    inner = R.of(n.body)
                    c.ob("X04.with", (False if sw else None) if inner else True, w, f"{ast.unparse(i.context_expr)} drops an error raised by {inner[0]} (line {inner[1]})" if inner else "no code of predicates, data sources or processors runs inside")
            elif isinstance(n, ast.Call):
                for kind, what in F.targets.get(id(n), ()):
                    if kind == "x" and what in ("asyncio.gather",) and any(k.arg == "return_exceptions" for k in n.keywords):
                        n0 += 1; c.ob("X04.handler", None, w, "errors are returned as results")
        if not n0: c.ob("X04.handler", True, c.where(f), "handles no errors")


def unknown(R, F, body):
    """a call whose failures this analysis does not know"""
    for n in R.nodes(body):
        if isinstance(n, ast.Call):
            ts = F.targets.get(id(n))
            for kind, what in ts or ():
                if kind == "x" and "." in what and not any(what.startswith(p) for p in CACHE_IO + PURE_EXT): return f"{what}()"
                if kind == "m" and what not in FILE_METHODS: return f".{what}()"
    return None


def own_walk(n):
    todo = [n]
    while todo:
        x = todo.pop(); yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda)): todo += list(ast.iter_child_nodes(x))


def in_loop(root, x):
    """x is inside a loop that is itself inside root"""
    def find(n, inside):
        if n is x: return inside
        for ch in ast.iter_child_nodes(n):
            r = find(ch, inside or isinstance(n, (ast.For, ast.While)))
            if r is not None: return r
        return None
    return bool(find(root, False))


def swallows(c, V, F, e):
    """does this context manager drop errors of its body?  True / None (unknown) / False"""
    if not isinstance(e, ast.Call): return False
    out = False
    for kind, what in F.targets.get(id(e), ()):
        if kind == "x" and what in ("contextlib.suppress", "suppress"): return True
    r = F.prog.resolve_expr(e.func, next((m for m in F.prog.modules.values() if any(n is e for n in ast.walk(m.tree))), None)) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
    if r and r[0] == "class":
        m = r[1].find("__exit__")
        if m is not None:
            rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return) and n.value is not None]
            if any(isinstance(v, ast.Constant) and v.value for v in rets): return True
            if any(not isinstance(v, ast.Constant) for v in rets): return None
    return out
