"""Source model of the analysed program: modules, classes, functions, annotations.

Everything is read from the source text; nothing of the program is imported or executed.
"""
import ast, os, warnings
from . import names


class AnalysisBroken(Exception):
    """An anchor of the analysis (entry point, class, registered predicate) is gone."""


class Missing(AnalysisBroken):
    """A helper that a specification is written against is gone: what it did happens elsewhere now."""


class Func:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node; self.module = module; self.cls = cls; self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        self.qual = (module.name + "." if module else "") + (cls.name + "." if cls else "") + self.name
        decs = []
        for d in getattr(node, "decorator_list", []):
            decs.append(ast.unparse(d))
        self.decorators = decs
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg: self.ann[a.vararg.arg] = None
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: self.defaults[x.arg] = d
        self.returns = getattr(node, "returns", None)
        self.static = "staticmethod" in decs
        self.clsmethod = "classmethod" in decs
        self.is_property = any(d in ("property", "functools.cached_property", "cached_property") for d in decs)
        self.abstract = any("abstractmethod" in d for d in decs)
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.ctxman = any(d.split(".")[-1] == "contextmanager" for d in decs)

    def __repr__(self): return f"<Func {self.qual}>"

    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body

    @property
    def file(self): return self.module.rel

    def stub(self):
        """body is only a docstring / pass / raise 'not implemented'"""
        b = [s for s in self.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if not b: return True
        if len(b) == 1 and isinstance(b[0], ast.Pass): return True
        if len(b) == 1 and isinstance(b[0], ast.Raise): return True
        return False


def _has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, node, module):
        self.node = node; self.module = module; self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}; self.ann = {}; self.attrs = {}
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.dataclass = any("dataclass" in d for d in self.decorators)
        self.frozen = any("frozen=True" in d for d in self.decorators)
        self.bases = []          # filled by Program
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(s, module, self)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.ann[s.target.id] = s.annotation
                if s.value is not None: self.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name): self.attrs[t.id] = s.value

    def __repr__(self): return f"<Class {self.qual}>"

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out: out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods: return c.methods[name]
        return None

    def find_after(self, cls, name):
        m = self.mro()
        m = m[m.index(cls) + 1:] if cls in m else m
        for c in m:
            if name in c.methods: return c.methods[name]
        return None

    def annotation(self, name):
        for c in self.mro():
            if name in c.ann: return c.ann[name], c
            if name in c.init_ann(): return c.init_ann()[name], c
        return None, None

    def init_ann(self):
        """self.x = <param>  /  self.x: T = ... /  self.x = Class(...) in __init__ (and clear-like helpers)"""
        if hasattr(self, "_ia"): return self._ia
        ia = {}
        for m in self.methods.values():
            if not m.params: continue
            selfn = m.params[0]
            for n in ast.walk(m.node):
                t = None
                if isinstance(n, ast.AnnAssign): t, v, a = n.target, n.value, n.annotation
                elif isinstance(n, ast.Assign) and len(n.targets) == 1: t, v, a = n.targets[0], n.value, None
                if t is not None and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfn:
                    if a is None and m.name == "__init__" and isinstance(v, ast.Name) and m.ann.get(v.id) is not None: a = m.ann[v.id]
                    if a is None and isinstance(v, ast.Call) and isinstance(v.func, ast.Name): a = v.func
                    if a is not None and t.attr not in ia: ia[t.attr] = a
        self._ia = ia
        return ia

    def fields(self):
        out = []
        for c in reversed(self.mro()):
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    out = [f for f in out if f[0] != s.target.id] + [(s.target.id, s.value, c)]
        return out

    def is_sub(self, qual):
        return any(c.qual == qual or c.name == qual for c in self.mro())

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, Class)]
        return out


class Module:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name = name; self.path = path; self.rel = rel; self.tree = tree; self.is_pkg = is_pkg
        self.binds = {}

    def __repr__(self): return f"<Module {self.name}>"


class Program:
    def __init__(self, root="/repo", pkg="richard"):
        self.root = root; self.pkg = pkg
        self.modules = {}; self.by_rel = {}; parsed = []
        for d, dirs, files in os.walk(os.path.join(root, pkg)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"): continue
                path = os.path.join(d, f); rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg: parts = parts[:-1]
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(open(path, encoding="utf-8").read(), path)
                parsed.append((".".join(parts), path, rel, tree, is_pkg))
        self.renamed = names.normalise({rel: tree for _, _, rel, tree, _ in parsed}) if pkg == "richard" else []
        for a in parsed:
            m = Module(*a)
            self.modules[m.name] = m; self.by_rel[m.rel] = m
        self.classes = {}; self.funcs = []
        for m in self.modules.values(): self._bind(m, m.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(b, c.module)
                c.bases.append(r[1] if r and r[0] == "class" else ast.unparse(b))
        for m in self.modules.values():
            for n in m.tree.body: self._collect(n, m)

    def _collect(self, n, m):
        pass

    def _bind(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname: m.binds[a.asname] = ("modref", a.name)
                    else: m.binds[a.name.split(".")[0]] = ("modref", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pk = m.name.split(".")
                    if not m.is_pkg: pk = pk[:-1]
                    pk = pk[:len(pk) - (s.level - 1)]
                    base = ".".join(pk + ([s.module] if s.module else []))
                for a in s.names:
                    m.binds[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.ClassDef):
                c = Class(s, m); self.classes[c.qual] = c; m.binds[s.name] = ("class", c)
                self.funcs += list(c.methods.values()) if False else []
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.binds[s.name] = ("func", Func(s, m))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name): m.binds[t.id] = ("const", s.value, m)
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name): m.binds[e.id] = ("opaque", e.id, m)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.binds[s.target.id] = ("const", s.value, m)
            elif isinstance(s, (ast.If, ast.Try)):
                self._bind(m, s.body)
                self._bind(m, getattr(s, "orelse", []))

    def resolve(self, m, name, depth=0):
        """-> ('class',Class) ('func',Func) ('const',expr,module) ('module',Module) ('ext','a.b') or None"""
        b = m.binds.get(name)
        if b is None or depth > 8: return None
        if b[0] == "modref":
            return ("module", self.modules[b[1]]) if b[1] in self.modules else ("ext", b[1])
        if b[0] == "from":
            full = b[1] + "." + b[2]
            if b[1] in self.modules:
                r = self.resolve(self.modules[b[1]], b[2], depth + 1)
                if r: return r
            if full in self.modules:
                mm = self.modules[full]
                # `from richard.interface import SomeSolver` names the module; used as a type it means its class
                return ("module", mm)
            return ("ext", full)
        return b

    def resolve_expr(self, e, m):
        if isinstance(e, ast.Name): return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(e.value, m)
            if r and r[0] == "module":
                r2 = self.resolve(r[1], e.attr)
                if r2: return r2
                sub = self.modules.get(r[1].name + "." + e.attr)
                return ("module", sub) if sub else None
            if r and r[0] == "ext": return ("ext", r[1] + "." + e.attr)
        return None

    # ---- types -----------------------------------------------------------
    def parse_type(self, a, m):
        if a is None: return None
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try: return self.parse_type(ast.parse(a.value, mode="eval").body, m)
                except SyntaxError: return None
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = self.parse_type(a.left, m), self.parse_type(a.right, m)
            if isinstance(a.right, ast.Constant) and a.right.value is None: return l
            if isinstance(a.left, ast.Constant) and a.left.value is None: return r
            return None
        if isinstance(a, ast.Subscript):
            base = ast.unparse(a.value).split(".")[-1].lower()
            el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if base in ("list", "sequence", "iterable", "iterator", "collection"): return ("list", self.parse_type(el[0], m))
            if base in ("orderedset",): return ("oset", self.parse_type(el[0], m))
            if base in ("set", "frozenset"): return ("set", self.parse_type(el[0], m))
            if base in ("dict", "defaultdict", "mapping") and len(el) == 2: return ("dict", self.parse_type(el[0], m), self.parse_type(el[1], m))
            if base == "tuple": return ("tuple",) + tuple(self.parse_type(x, m) for x in el if not isinstance(x, ast.Constant))
            if base == "optional": return self.parse_type(el[0], m)
            return None
        if isinstance(a, (ast.Name, ast.Attribute)):
            n = ast.unparse(a)
            if n in ("list",): return ("list", None)
            if n == "dict": return ("dict", None, None)
            if n == "set": return ("set", None)
            if n == "tuple": return ("tuple",)
            if n in ("str", "int", "float", "bool"): return (n,)
            if n in ("callable", "Callable"): return ("callable",)
            r = self.resolve_expr(a, m)
            if r and r[0] == "class":
                if r[1].name == "OrderedSet": return ("oset", None)
                return ("cls", r[1].qual)
            if r and r[0] == "module":
                last = r[1].name.split(".")[-1]
                r2 = self.resolve(r[1], last)
                if r2 and r2[0] == "class": return ("cls", r2[1].qual)
            if r and r[0] == "const": return None
            if r and r[0] == "ext": return ("ext", r[1])
        return None

    def cls(self, name):
        """class by qualified or unique simple name"""
        if name in self.classes: return self.classes[name]
        c = [x for x in self.classes.values() if x.name == name]
        if len(c) == 1: return c[0]
        raise AnalysisBroken(f"class {name} not found (or ambiguous) in {self.pkg}")

    def method(self, cname, mname):
        m = self.cls(cname).find(mname)
        if m is None: raise Missing(f"method {cname}.{mname} not found")
        return m

    def function(self, fname):
        c = [b[1] for m in self.modules.values() for n, b in m.binds.items() if b[0] == "func" and n == fname]
        if len(c) != 1: raise Missing(f"function {fname} not found (or ambiguous)")
        return c[0]

    def all_functions(self):
        """every function, method, nested function and lambda: (Func)"""
        if getattr(self, "_all", None): return self._all
        out = []
        for m in self.modules.values():
            def walk(n, cls, parent):
                for ch in ast.iter_child_nodes(n):
                    if isinstance(ch, ast.ClassDef):
                        c = self.classes.get(m.name + "." + ch.name)
                        walk(ch, c, parent)
                    elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                        f = None
                        if cls is not None and parent is None and not isinstance(ch, ast.Lambda): f = cls.methods.get(ch.name)
                        if f is None and parent is None and not isinstance(ch, ast.Lambda) and m.binds.get(ch.name, (0,))[0] == "func": f = m.binds[ch.name][1]
                        if f is None or f.node is not ch: f = Func(ch, m, cls, parent)
                        out.append(f)
                        walk(ch, cls, f)
                    else: walk(ch, cls, parent)
            walk(m.tree, None, None)
        self._all = out
        return out

    def subclasses(self, c):
        return [x for x in self.classes.values() if c in x.mro()]
