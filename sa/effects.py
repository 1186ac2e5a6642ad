"""Whole-program effect analysis: which objects may each function change, and whose objects are they?

Flow-sensitive per function (environment + abstract heap with recency), composed bottom-up by summaries
until nothing changes.  Objects are
    ('n', site, kind, age)   allocated by this activation (age 0: the most recent one of that site)
    ('p', fid, name)         what a parameter refers to on entry
    ('f', base, key)         what is found in `base` under `key` on entry ('.name' field, '[]' element, '[k]' key, '[0]' position)
    ('o', base, type)        some object of this type that is reached from `base` on entry (recursive structures)
    ('g', module, name)      object bound at module level          ('ca', class, name)  object bound in a class body
    ('d', fid, name)         default value of a parameter           ('fo', site)         result of code outside the package's control
    ('c', class) ('fn', func) ('bm', func, recv) ('x', dotted)      classes, functions, bound methods, external names
Primitive values have no object.  Effects are (object, key, stored objects, sure, site).
"""
import ast
from .program import Program, Func, Class

LIMIT = 5
E0 = frozenset()
MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "add", "discard", "setdefault", "sort", "reverse",
            "appendleft", "popleft", "extendleft", "rotate", "difference_update", "intersection_update", "symmetric_difference_update",
            "__setitem__", "__delitem__", "__iadd__", "move_to_end", "subtract", "write"}
STORES = {"append", "add", "appendleft"}
PRIM = {"str", "int", "float", "bool", "bytes"}
SAFE_EXT = {"len", "str", "int", "float", "bool", "repr", "hash", "id", "isinstance", "issubclass", "abs", "round", "ord", "chr", "print", "range", "callable", "hasattr", "sum", "any", "all", "format", "open"}


class Summary:
    __slots__ = ("effects", "ret", "heap", "user", "sig")
    def __init__(self): self.effects = {}; self.ret = E0; self.heap = {}; self.user = False; self.sig = None


class St:
    __slots__ = ("env", "heap")
    def __init__(self, env=None, heap=None): self.env = env or {}; self.heap = heap or {}
    def copy(self): return St(dict(self.env), {k: dict(v) for k, v in self.heap.items()})


def join(a, b):
    if a is None: return b
    if b is None: return a
    r = St()
    for k in a.env.keys() | b.env.keys(): r.env[k] = a.env.get(k, E0) | b.env.get(k, E0)
    for l in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(l), b.heap.get(l)
        if x is None or y is None:
            z = x if y is None else y
            # an object that does not exist on the other branch keeps its contents; a path object keeps its entry contents too
            r.heap[l] = dict(z) if l[0] == "n" else {k: (v, False) for k, (v, d) in z.items()}
            continue
        m = {}
        for k in x.keys() | y.keys():
            if k in x and k in y: m[k] = (x[k][0] | y[k][0], x[k][1] and y[k][1])
            else: m[k] = ((x.get(k) or y.get(k))[0], False)
        r.heap[l] = m
    return r


def same(a, b):
    if a is None or b is None: return a is b
    return a.env == b.env and a.heap == b.heap


def root(loc):
    while loc[0] in ("f", "o"): loc = loc[1]
    return loc


def depth(loc):
    n = 0
    while loc[0] == "f": n += 1; loc = loc[1]
    return n


def on_path(loc):
    """the objects on the path to loc"""
    while loc[0] in ("f", "o"):
        loc = loc[1]; yield loc


def widen(s, o):
    """from some round on summaries only grow, so that the rounds end"""
    for k, (v, sure, how, own) in o.effects.items():
        x = s.effects.get(k, (E0, False, how, own)); s.effects[k] = (v | x[0], sure or x[1], x[2], x[3])
    s.ret |= o.ret; s.user |= o.user
    for l, m in o.heap.items():
        n = s.heap.setdefault(l, {})
        for k, (v, d) in m.items():
            if k in n: n[k] = (n[k][0] | v, n[k][1] and d)
            else: n[k] = (v, False)
        for k in n:
            if k not in m: n[k] = (n[k][0], False)
    sign(s)


def sign(S):
    S.sig = (frozenset((k, v[0], v[1]) for k, v in S.effects.items()), S.ret, S.user,
             frozenset((l, k, v) for l, m in S.heap.items() for k, v in m.items()))


CAP = 24
def cap(v):
    """many paths from one root become 'something reached from that root'"""
    if len(v) <= CAP: return v
    out = set(); by = {}
    for l in v:
        if l[0] in ("f", "o"): by.setdefault(root(l), []).append(l)
        else: out.add(l)
    for r, ls in by.items(): out |= {("o", r, None)} if len(ls) > 4 else set(ls)
    return frozenset(out)


class Effects:
    def __init__(self, prog, budget=240):
        import time
        t0 = time.time()
        self.prog = prog
        self.funcs = {id(f.node): f for f in prog.all_functions()}
        self.sum = {k: Summary() for k in self.funcs}
        self.calls = {k: set() for k in self.funcs}         # caller fid -> callee fids
        self.callsites = 0; self.unresolved = set()
        self.by_name = {}
        for c in prog.classes.values():
            for n, m in c.methods.items(): self.by_name.setdefault(n, []).append(m)
        self.children = {}
        for k, f in self.funcs.items():
            if f.parent is not None: self.children.setdefault(id(f.parent.node), {})[f.name] = f
        self.mod_types = {}
        self.kept = {}                                      # (class, field) -> classes of the objects stored in it
        self.rounds = 0
        order = list(self.funcs); todo = set(order); self.deps = {k: set() for k in self.funcs}     # callee -> callers
        while todo and self.rounds < 80:
            self.rounds += 1; dirty = set()
            for k in order:
                if k not in todo: continue
                if time.time() - t0 > budget: dirty.add(k); continue
                s = Run(self, self.funcs[k]).run()
                if self.rounds > 8: widen(s, self.sum[k])
                for c in self.calls[k]: self.deps.setdefault(c, set()).add(k)
                if s.sig != self.sum[k].sig: dirty |= self.deps[k] | {k}
                self.sum[k] = s
            todo = dirty
            if time.time() - t0 > budget: break
        self.converged = not todo

    # ------------------------------------------------------------ types
    def ftype(self, cq, name):
        """declared type of field `name` of class cq"""
        c = self.prog.classes.get(cq)
        if c is None: return None
        a, owner = c.annotation(name)
        if a is None: return None
        return self.prog.parse_type(a, owner.module)

    def type_of(self, loc):
        k = loc[0]
        if k == "n":
            kind = loc[2]
            return ("cls", kind[4:]) if kind.startswith("cls:") else (kind,) if kind != "ext" else ("ext", "?")
        if k == "p":
            f = self.funcs[loc[1]]
            if loc[2] == (f.params[0] if f.params else None) and f.cls is not None and not f.static and f.parent is None and not isinstance(f.node, ast.Lambda):
                return ("cls", f.cls.qual)
            if loc[2] == f.vararg: return ("list", None)
            if loc[2] == f.kwarg: return ("dict", None, None)
            if loc[2].startswith("^"):
                p = f.parent
                n = loc[2][1:]
                while p is not None:
                    if n in p.params: return self.type_of(("p", id(p.node), n))
                    p = p.parent
                return None
            return self.prog.parse_type(f.ann.get(loc[2]), f.module)
        if k == "f":
            b = self.type_of(loc[1]); key = loc[2]
            if b is None: return None
            if b[0] == "cls" and key.startswith("."): return self.ftype(b[1], key[1:])
            if b[0] in ("list", "set", "oset"): return b[1] if key == "[]" and len(b) > 1 else None
            if b[0] == "dict": return (b[2] if key == "[]" else b[1] if key == "[k]" else None) if len(b) > 2 else None
            if b[0] == "tuple":
                if key.startswith("[") and key[1:-1].isdigit() and int(key[1:-1]) + 1 < len(b): return b[int(key[1:-1]) + 1]
                if len(b) == 2: return b[1]
            return None
        if k == "o": return loc[2]
        if k in ("g", "ca", "d"):
            return self.value_type(loc)
        return None

    def value_type(self, loc):
        if loc[0] == "g":
            m = self.prog.modules[loc[1]]; b = m.binds.get(loc[2]); e = b[1] if b and b[0] == "const" else None
        elif loc[0] == "ca":
            m = self.prog.classes[loc[1]].module; e = self.prog.classes[loc[1]].attrs.get(loc[2])
        else:
            f = self.funcs[loc[1]]; m = f.module; e = f.defaults.get(loc[2])
        return self.expr_type(e, m)

    def expr_type(self, e, m):
        if isinstance(e, (ast.List, ast.ListComp)): return ("list", None)
        if isinstance(e, (ast.Dict, ast.DictComp)): return ("dict", None, None)
        if isinstance(e, (ast.Set, ast.SetComp)): return ("set", None)
        if isinstance(e, ast.Call):
            r = self.prog.resolve_expr(e.func, m)
            if r and r[0] == "class": return ("oset", None) if r[1].name == "OrderedSet" else ("cls", r[1].qual)
            n = ast.unparse(e.func).split(".")[-1]
            if n in ("list", "dict", "set", "defaultdict", "OrderedDict", "Counter", "deque"): return {"defaultdict": ("dict", None, None), "OrderedDict": ("dict", None, None), "Counter": ("dict", None, None), "deque": ("list", None)}.get(n, (n, None) if n != "dict" else ("dict", None, None))
            return None
        return None

    def mutable_value(self, e, m):
        """the object a module/class/default expression creates may be changed"""
        if e is None or isinstance(e, ast.Constant): return False
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)): return True
        if isinstance(e, ast.Call):
            r = self.prog.resolve_expr(e.func, m)
            if r and r[0] == "class": return True
            return ast.unparse(e.func).split(".")[-1] in ("list", "dict", "set", "defaultdict", "OrderedDict", "Counter", "deque", "WeakKeyDictionary", "WeakValueDictionary")
        return False

    def kept_in(self, l):
        """classes of objects that are stored in the field a path ends in (the declared type may be too narrow)"""
        if l[0] != "f" or not l[2].startswith("."): return ()
        t = self.type_of(l[1])
        if not t or t[0] != "cls": return ()
        out = []
        for cq, ts in self.kept.get(l[2][1:], {}).items():
            a, b = self.prog.classes.get(cq), self.prog.classes.get(t[1])
            if a and b and (a in b.mro() or b in a.mro()): out += [x for x in sorted(ts) if x not in out]
        return out

    def owner(self, l, key):
        """(class, field, depth): whose state is changed when `key` of l is changed; depth: how far below the field"""
        if key.startswith("."):
            t = self.type_of(l)
            return (t[1], key[1:], 0) if t and t[0] == "cls" else None
        d = 1
        while l[0] == "f":
            if l[2].startswith("."):
                t = self.type_of(l[1])
                return (t[1], l[2][1:], d) if t and t[0] == "cls" else None
            d += 1; l = l[1]
        return None

    # ------------------------------------------------------------ calls
    def methods(self, t, name):
        """implementations a call of `name` on an object of class type t may reach"""
        c = self.prog.classes.get(t[1])
        if c is None: return []
        out = []
        m = c.find(name)
        if m is not None: out.append(m)
        for s in self.prog.subclasses(c):
            if s is not c and name in s.methods and s.methods[name] not in out: out.append(s.methods[name])
        return out


class Run:
    """one pass over one function"""
    def __init__(self, E, f):
        self.E = E; self.f = f; self.fid = id(f.node); self.S = Summary(); self.ret = E0
        self.loops = []; self.calls = set(); self.out = None; self.locals = set()

    def site(self, n, tag=""): return (self.f.module.rel, n.lineno, n.col_offset, tag)

    def run(self):
        f = self.f; st = St()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): self.locals.add(n.id)
        a = f.node.args
        for p in f.params + f.kwonly + [x for x in (f.vararg, f.kwarg) if x]:
            t = self.E.type_of(("p", self.fid, p))
            st.env[p] = E0 if t and t[0] in PRIM else frozenset([("p", self.fid, p)])
            self.locals.add(p)
        end = self.block(f.body, st)
        if end is not None: self.out = join(self.out, end)
        S = self.S; S.ret = cap(self.ret)
        if self.out is not None:
            reach = set(); todo = list(S.ret) + [l for l in self.out.heap if root(l)[0] != "n"]
            for (l, k, si), (v, sure, how, own) in S.effects.items(): todo += list(v)
            while todo:
                l = todo.pop()
                while l[0] in ("f", "o"):
                    if l in reach: break
                    reach.add(l)
                    for v, d in self.out.heap.get(l, {}).values(): todo += list(v)
                    l = l[1]
                if l in reach: continue
                reach.add(l)
                for v, d in self.out.heap.get(l, {}).values(): todo += list(v)
            S.heap = {l: dict(self.out.heap[l]) for l in reach if l in self.out.heap}
        sign(S)
        self.E.calls[self.fid] = self.calls
        return S

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body:
            if st is None: return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Expr): self.ev(s.value, st); return st
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets: self.assign(t, v, st, s)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None: self.assign(s.target, self.ev(s.value, st), st, s)
            return st
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, st)
            if isinstance(s.target, ast.Name):
                old = self.ev(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), st)
                upd = [l for l in old if self.kind(l) in ("list", "set", "dict", "oset")]
                unsure = [l for l in old if self.kind(l) is None and l[0] in ("p", "f", "fo", "o") and self.maybe_container(s.value, v)]
                if isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.Mult, ast.BitXor)):
                    for l in upd + unsure: self.mutate(st, l, "[]", self.elements(v, st), l in upd, s, "augmented assignment")
                if not old and v: st.env[s.target.id] = v
            else:
                self.store_target(s.target, E0, st, s, aug=True)
            return st
        if isinstance(s, ast.Return):
            if s.value is not None: self.ret |= self.ev(s.value, st)
            self.out = join(self.out, st); return None
        if isinstance(s, ast.If):
            self.ev(s.test, st)
            a, b = st.copy(), st
            self.narrow(s.test, a, True); self.narrow(s.test, b, False)
            return join(self.block(s.body, a), self.block(s.orelse, b))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, st); src = it
            return self.loop(st, lambda x: self.assign_elem(s.target, src, x, s), s.body, s.orelse)
        if isinstance(s, ast.While):
            return self.loop(st, lambda x: self.ev(s.test, x), s.body, s.orelse)
        if isinstance(s, ast.Break):
            self.loops[-1][0] = join(self.loops[-1][0], st.copy()); return None
        if isinstance(s, ast.Continue):
            self.loops[-1][1] = join(self.loops[-1][1], st.copy()); return None
        if isinstance(s, ast.Raise):
            if s.exc is not None: self.ev(s.exc, st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None: self.assign(i.optional_vars, v, st, s)
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            before = st.copy()
            mid = self.block(s.body, st)
            h0 = join(before, mid.copy() if mid is not None else None)
            ends = self.block(s.orelse, mid) if mid is not None else None
            for h in s.handlers:
                x = h0.copy()
                if h.name: x.env[h.name] = frozenset([("n", self.site(h), "ext", 0)])
                ends = join(ends, self.block(h.body, x))
            if s.finalbody:
                if ends is None:
                    self.block(s.finalbody, h0.copy()); return None
                return self.block(s.finalbody, ends)
            return ends
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    b = self.ev(t.value, st)
                    for l in b: self.mutate(st, l, "[]" if isinstance(t, ast.Subscript) else "." + t.attr, E0, True, s, "del")
                elif isinstance(t, ast.Name): st.env.pop(t.id, None)
            return st
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = self.E.funcs.get(id(s))
            if f is not None: st.env[s.name] = frozenset([("fn", id(s))]); self.locals.add(s.name); self.closure(f, st)
            return st
        if isinstance(s, ast.Global):
            for n in s.names: self.locals.discard(n); self.glob = getattr(self, "glob", set()) | {n}
            return st
        if isinstance(s, ast.Nonlocal):
            self.nonl = getattr(self, "nonl", set()) | set(s.names); return st
        if isinstance(s, ast.Assert): self.ev(s.test, st); return st
        if isinstance(s, ast.Match):
            v = self.ev(s.subject, st); end = st.copy()
            for c in s.cases:
                x = st.copy()
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: x.env[n.name] = v | self.elements(v, x)
                end = join(end, self.block(c.body, x))
            return end
        return st

    def loop(self, st, head, body, orelse):
        cur = st
        for _ in range(12):
            x = cur.copy()
            self.loops.append([None, None])
            head(x)
            after = x.copy()
            e = self.block(body, x)
            brk, cont = self.loops.pop()
            nxt = join(cur.copy(), join(e, cont))
            exit_ = join(after, brk)
            if same(nxt, cur): break
            cur = nxt
        end = join(cur.copy(), brk)
        if orelse: end = join(self.block(orelse, cur.copy()), brk)
        return end

    def narrow(self, test, st, truth):
        """isinstance(x, T) on a name: drop objects known to be of another kind"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return self.narrow(test.operand, st, not truth)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and truth:
            for v in test.values: self.narrow(v, st, True)

    def maybe_container(self, e, v):
        if isinstance(e, (ast.List, ast.ListComp, ast.Set, ast.Dict)): return True
        return any(self.kind(l) in ("list", "set", "dict", "oset") for l in v)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, n):
        if isinstance(t, ast.Name):
            if t.id in getattr(self, "glob", ()):
                self.effect(("g", self.f.module.name, t.id), "=", v, True, n, "assignment to a module-level name"); return
            if t.id in getattr(self, "nonl", ()):
                self.effect(("p", self.fid, "^" + t.id), "=", v, True, n, "assignment to a variable of the enclosing function"); return
            st.env[t.id] = cap(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    l = self.alloc(n, "list", st, "star%d" % i); self.put(st, l, "[]", self.elements(v, st)); self.assign(x.value, frozenset([l]), st, n)
                else: self.assign(x, self.position(v, i, st), st, n)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, st, n)
        else: self.store_target(t, v, st, n)

    def assign_elem(self, target, seq, st, n):
        self.assign(target, self.elements(seq, st, n), st, n)

    def store_target(self, t, v, st, n, aug=False):
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            if aug:
                cur = self.getattr(base, t.attr, st, t)
                for l in cur:
                    if self.kind(l) in ("list", "set", "dict", "oset"): self.mutate(st, l, "[]", v, True, n, "augmented assignment")
            for l in base:
                strong = len(base) == 1 and not aug
                self.mutate(st, l, "." + t.attr, v, True, n, "assignment to attribute " + t.attr, strong)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            for l in base:
                self.mutate(st, l, "[]", v, True, n, "assignment to an element")
                if k and l[0] == "n" and l[2] == "dict": self.put(st, l, "[k]", k)

    # ------------------------------------------------------------ heap
    def alloc(self, node, kind, st, tag=""):
        site = self.site(node, tag); l = ("n", site, kind, 0)
        self.age(st, {l}); st.heap[l] = {}
        return l

    def age(self, st, locs):
        """the most recent objects of these sites become older ones"""
        locs = {l for l in locs if l[0] == "n" and l[3] == 0}
        live = {l for l in locs if l in st.heap or any(l in v for v in st.env.values())}
        if not live: return
        ren = {l: l[:3] + (1,) for l in live}
        def rl(l):
            if l in ren: return ren[l]
            if l[0] in ("f", "o"):
                b = rl(l[1]); return l if b is l[1] else (l[0], b, l[2])
            if l[0] == "bm": return ("bm", l[1], frozenset(rl(x) for x in l[2]))
            return l
        def rs(v): return frozenset(rl(x) for x in v)
        st.env = {k: rs(v) for k, v in st.env.items()}
        h = {}
        for l, m in st.heap.items():
            l2 = rl(l); m2 = {k: (rs(v), d) for k, (v, d) in m.items()}
            if l2 in h:
                o = h[l2]
                h[l2] = {k: (o.get(k, (E0, False))[0] | m2.get(k, (E0, False))[0], False) for k in o.keys() | m2.keys()}
            else: h[l2] = m2
        st.heap = h
        self.ret = rs(self.ret)

    def put(self, st, l, key, v, strong=False):
        m = st.heap.setdefault(l, {})
        if strong: m[key] = (cap(frozenset(v)), True)
        else:
            o = m.get(key, (E0, False)); m[key] = (cap(o[0] | v), o[1])

    def kind(self, l):
        t = self.E.type_of(l)
        return t[0] if t else None

    def ext_path(self, l, key):
        if l[0] == "o" and l[2] is None: return frozenset([l])
        nl = ("f", l, key)
        t = self.E.type_of(nl)
        if t and t[0] in PRIM: return E0
        r = root(l)
        if t and t[0] == "cls" and any(self.E.type_of(x) == t for x in on_path(nl)): return frozenset([("o", r, t)])
        if depth(l) >= LIMIT:
            # name the nearest object of a class on the path by its class only
            keys = [key]; x = l
            while x[0] == "f":
                tx = self.E.type_of(x)
                if tx and tx[0] == "cls":
                    y = ("o", r, tx)
                    for k in reversed(keys): y = ("f", y, k)
                    return frozenset([y])
                keys.append(x[2]); x = x[1]
            return frozenset([("o", r, t)])
        return frozenset([nl])

    def load(self, st, l, key, seen=()):
        m = st.heap.get(l, {})
        if key in m:
            v, d = m[key]
            if d or l[0] == "n" and "*" not in m: return v
        else: v = E0
        if l[0] == "n":
            if "*" in m:
                for b in m["*"][0]:
                    if b not in seen and b != l: v |= self.load(st, b, key, seen + (l,))
            if key == "[]" or key.startswith("[") and key != "[k]":
                # positional and general elements of the same object
                for k, (x, d) in m.items():
                    if key == "[]" and k.startswith("[") and k != "[k]": v |= x
                    elif key != "[]" and k == "[]": v |= x
            if l[2].startswith("cls:") and key.startswith(".") and key not in m: v |= self.class_attr(l[2][4:], key[1:])
            return v
        if l[0] in ("c", "fn", "bm", "x"): return v
        v = v | self.ext_path(l, key)
        if key.startswith("."):
            t = self.E.type_of(l)
            if t and t[0] == "cls": v |= self.class_attr(t[1], key[1:])
        return v

    def class_attr(self, cq, name):
        c = self.E.prog.classes.get(cq)
        if c is None: return E0
        for k in c.mro():
            if name in k.attrs:
                if k.dataclass and name in k.ann: return E0
                if self.E.mutable_value(k.attrs[name], k.module) and not self.init_sets(c, name): return frozenset([("ca", k.qual, name)])
                return E0
        return E0

    def init_sets(self, c, name):
        i = c.find("__init__")
        if i is None or not i.params: return False
        for n in i.body:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []):
                if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == i.params[0]: return True
        return False

    def elements(self, v, st, node=None):
        out = E0
        for l in v:
            t = self.E.type_of(l)
            if l[0] in ("c", "fn", "bm", "x"): continue
            if t and t[0] == "cls":
                ms = self.E.methods(t, "__iter__")
                if ms:
                    it = self.apply(ms, [frozenset([l])], {}, st, node or self.f.node, recv=frozenset([l]))
                    nx = E0
                    for x in it:
                        tx = self.E.type_of(x)
                        if tx and tx[0] == "cls":
                            mn = self.E.methods(tx, "__next__")
                            if mn: nx |= self.apply(mn, [frozenset([x])], {}, st, node or self.f.node, recv=frozenset([x]))
                        else: nx |= self.load(st, x, "[]")
                    out |= nx; continue
            if t and t[0] == "dict": out |= self.load(st, l, "[k]"); continue
            out |= self.load(st, l, "[]")
        return out

    def values(self, v, st):
        out = E0
        for l in v: out |= self.load(st, l, "[]")
        return out

    def position(self, v, i, st):
        out = E0
        for l in v:
            if l[0] in ("c", "fn", "bm", "x"): continue
            m = st.heap.get(l, {})
            if l[0] == "n" and "*" not in m:
                k = "[%d]" % i
                if k in m: out |= m[k][0] | m.get("[]", (E0, 0))[0]
                else: out |= m.get("[]", (E0, 0))[0]
            else:
                t = self.E.type_of(l)
                out |= self.load(st, l, "[%d]" % i if t and t[0] == "tuple" else "[]")
        return out

    def effect(self, l, key, v, sure, node, how):
        self.record((l, key, self.site(node)), frozenset(v), sure, how, self.E.owner(l, key))

    def record(self, k, v, sure, how, own):
        o = self.S.effects.get(k)
        if o: v = v | o[0]; sure = sure or o[1]; own = own or o[3]
        self.S.effects[k] = (v, sure, how, own)

    def mutate(self, st, l, key, v, sure, node, how, strong=False):
        r = root(l)
        if key.startswith("."):
            t = self.E.type_of(l)
            if t and t[0] == "cls":
                for x in v:
                    tx = self.E.type_of(x)
                    if tx and tx[0] == "cls": self.E.kept.setdefault(key[1:], {}).setdefault(t[1], set()).add(tx)
        if l[0] in ("fn", "bm", "x"):
            if l[0] == "fn": self.effect(l, key, v, sure, node, how)
            return
        if l[0] == "c":
            self.effect(("ca", l[1], key.lstrip(".")), "=", v, sure, node, how + " of a class"); return
        if r[0] != "n": self.effect(l, key, v, sure, node, how)
        self.put(st, l, key, v, strong and (l[0] == "n" and l[3] == 0 or l[0] == "p"))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        if isinstance(e, ast.Constant): return E0
        if isinstance(e, ast.Name): return self.name(e, st)
        if isinstance(e, ast.Attribute): return self.getattr(self.ev(e.value, st), e.attr, st, e)
        if isinstance(e, ast.Call): return self.call(e, st)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, st)
            if isinstance(e.slice, ast.Slice):
                for x in (e.slice.lower, e.slice.upper, e.slice.step):
                    if x is not None: self.ev(x, st)
                if not b: return E0
                l = self.alloc(e, "list", st); self.put(st, l, "[]", self.values(b, st)); return frozenset([l])
            self.ev(e.slice, st)
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value >= 0: return self.position(b, e.slice.value, st)
            return self.values(b, st)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            kind = {ast.List: "list", ast.Tuple: "tuple", ast.Set: "set"}[type(e)]
            vals = [(self.ev(x.value, st), True) if isinstance(x, ast.Starred) else (self.ev(x, st), False) for x in e.elts]
            l = self.alloc(e, kind, st); star = False
            for i, (v, s) in enumerate(vals):
                if s: star = True; self.put(st, l, "[]", self.elements(v, st, e))
                elif kind == "set" or star: self.put(st, l, "[]", v)
                else: self.put(st, l, "[%d]" % i, v)
            if kind == "list":
                m = st.heap[l]; al = E0
                for v, d in m.values(): al |= v
                st.heap[l] = {"[]": (al, False)}
            return frozenset([l])
        if isinstance(e, ast.Dict):
            ks = [(self.ev(k, st) if k is not None else None, self.ev(v, st)) for k, v in zip(e.keys, e.values)]
            l = self.alloc(e, "dict", st)
            for k, v in ks:
                if k is None:
                    self.put(st, l, "[]", self.values(v, st))
                    for x in v: self.put(st, l, "[k]", self.load(st, x, "[k]"))
                else: self.put(st, l, "[]", v); self.put(st, l, "[k]", k)
            return frozenset([l])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e, st)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            ks = [self.kind(l) for l in a | b if l[0] not in ("c", "fn", "bm", "x")]
            if not ks: return E0
            if isinstance(e.op, ast.Mod) and not a: return E0
            kind = "set" if "set" in ks else "dict" if "dict" in ks and isinstance(e.op, ast.BitOr) else "list"
            if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                l = self.alloc(e, kind, st); self.put(st, l, "[]", self.values(a | b, st)); return frozenset([l])
            return E0
        if isinstance(e, ast.BoolOp):
            out = E0
            for x in e.values: out |= self.ev(x, st)
            return out
        if isinstance(e, ast.IfExp):
            self.ev(e.test, st); return self.ev(e.body, st) | self.ev(e.orelse, st)
        if isinstance(e, (ast.Compare,)):
            self.ev(e.left, st)
            for x in e.comparators: self.ev(x, st)
            return E0
        if isinstance(e, ast.UnaryOp): self.ev(e.operand, st); return E0
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue): self.ev(x.value, st)
            return E0
        if isinstance(e, ast.Lambda):
            f = self.E.funcs.get(id(e))
            if f is not None: self.closure(f, st)
            return frozenset([("fn", id(e))])
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st); self.assign(e.target, v, st, e); return v
        if isinstance(e, ast.Starred): return self.ev(e.value, st)
        if isinstance(e, (ast.Yield, ast.Await)):
            v = self.ev(e.value, st) if e.value is not None else E0
            l = ("n", (self.f.module.rel, self.f.node.lineno, 0, "gen"), "list", 0)
            st.heap.setdefault(l, {}); self.put(st, l, "[]", v); self.ret |= frozenset([l])
            return E0
        if isinstance(e, ast.YieldFrom):
            v = self.ev(e.value, st)
            l = ("n", (self.f.module.rel, self.f.node.lineno, 0, "gen"), "list", 0)
            st.heap.setdefault(l, {}); self.put(st, l, "[]", self.elements(v, st)); self.ret |= frozenset([l])
            return E0
        out = E0
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr): out |= self.ev(c, st)
        return out

    def name(self, e, st):
        n = e.id
        if n in st.env: return st.env[n]
        if n in self.locals and n not in getattr(self, "glob", ()): return E0
        p = self.f.parent
        while p is not None:
            if n in p.params or any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n for x in ast.walk(p.node)) or n in self.E.children.get(id(p.node), {}):
                ch = self.E.children.get(id(p.node), {})
                if n in ch: return frozenset([("fn", id(ch[n].node))])
                return frozenset([("p", self.fid, "^" + n)])
            p = p.parent
        return self.resolved(self.E.prog.resolve(self.f.module, n), n)

    def resolved(self, r, n):
        if r is None: return frozenset([("x", n)])
        if r[0] == "class": return frozenset([("c", r[1].qual)])
        if r[0] == "func": return frozenset([("fn", id(r[1].node))])
        if r[0] == "const":
            if self.E.mutable_value(r[1], r[2]):
                nm = next((k for k, b in r[2].binds.items() if b[0] == "const" and b[1] is r[1]), n)
                return frozenset([("g", r[2].name, nm)])
            if isinstance(r[1], ast.Name): return self.resolved(self.E.prog.resolve(r[2], r[1].id), r[1].id)
            return E0
        if r[0] == "module":
            last = r[1].name.split(".")[-1]
            return frozenset([("x", "module:" + r[1].name)])
        if r[0] == "ext": return frozenset([("x", r[1])])
        return E0

    def getattr(self, base, name, st, node):
        out = E0
        for l in base:
            if l[0] == "c":
                c = self.E.prog.classes[l[1]]
                m = c.find(name)
                if m is not None: out |= frozenset([("fn", id(m.node))])
                else:
                    for k in c.mro():
                        if name in k.attrs:
                            if self.E.mutable_value(k.attrs[name], k.module): out |= frozenset([("ca", k.qual, name)])
                            break
            elif l[0] == "x":
                if l[1].startswith("module:"):
                    out |= self.resolved(self.E.prog.resolve(self.E.prog.modules[l[1][7:]], name), name)
                else: out |= frozenset([("x", l[1] + "." + name)])
            elif l[0] in ("fn", "bm"): continue
            elif name == "__class__":
                t = self.E.type_of(l)
                if t and t[0] == "cls": out |= frozenset([("c", t[1])])
            elif name == "__dict__": out |= frozenset([l])
            else:
                t = self.E.type_of(l)
                ms = self.E.methods(t, name) if t and t[0] == "cls" else []
                if ms:
                    if any(m.is_property for m in ms): out |= self.apply(ms, [], {}, st, node, recv=frozenset([l]))
                    else: out |= frozenset(("bm", id(m.node), frozenset([l])) for m in ms)
                else: out |= self.load(st, l, "." + name)
        return out

    def comp(self, e, st):
        x = st.copy()
        for g in e.generators:
            it = self.ev(g.iter, x)
            self.assign_elem(g.target, it, x, e)
            for c in g.ifs: self.ev(c, x)
        # twice: objects made by an earlier round stay reachable
        kind = {ast.ListComp: "list", ast.SetComp: "set", ast.GeneratorExp: "list", ast.DictComp: "dict"}[type(e)]
        if isinstance(e, ast.DictComp): k, v = self.ev(e.key, x), self.ev(e.value, x)
        else: k, v = None, self.ev(e.elt, x)
        for l, m in x.heap.items():
            if l not in st.heap: st.heap[l] = m
            else:
                for kk, (vv, d) in m.items():
                    o = st.heap[l].get(kk)
                    st.heap[l][kk] = (vv | (o[0] if o else E0), bool(o and o[1] and d))
        l = self.alloc(e, kind, st); self.put(st, l, "[]", v)
        if k: self.put(st, l, "[k]", k)
        return frozenset([l])

    # ------------------------------------------------------------ calls
    def call(self, e, st):
        self.E.callsites += 1
        fn = e.func
        args = []; star = E0; has_star = False
        # super().m(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            recv = st.env.get(self.f.params[0], E0) if self.f.params else E0
            m = self.f.cls.find_after(self.f.cls, fn.attr) if self.f.cls else None
            args, kw = self.args(e, st)
            if m is None: return E0
            return self.apply([m], args, kw, st, e, recv=recv)
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, st)
            args, kw = self.args(e, st)
            return self.method_call(recv, fn.attr, args, kw, st, e, fn)
        f = self.ev(fn, st)
        args, kw = self.args(e, st)
        out = E0
        for l in f: out |= self.call_value(l, args, kw, st, e, fn.id if isinstance(fn, ast.Name) else None)
        if not f: out |= self.foreign(args, kw, st, e)
        return out

    def args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred): args.append(("*", self.elements(self.ev(a.value, st), st, e)))
            else: args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None: kw["**"] = kw.get("**", E0) | self.values(v, st)
            else: kw[k.arg] = v
        return args, kw

    def flat(self, args, kw):
        out = E0
        for a in args: out |= a[1] if isinstance(a, tuple) and a and a[0] == "*" else a
        for v in kw.values(): out |= v
        return out

    def foreign(self, args, kw, st, e):
        self.S.user = True
        l = ("fo", self.site(e))
        return frozenset([l])

    def call_value(self, l, args, kw, st, e, nm=None):
        if l[0] == "c": return self.construct(l[1], args, kw, st, e)
        if l[0] == "fn": return self.apply([self.E.funcs[l[1]]], args, kw, st, e)
        if l[0] == "bm": return self.apply([self.E.funcs[l[1]]], args, kw, st, e, recv=l[2])
        if l[0] == "x": return self.external(l[1], args, kw, st, e)
        t = self.E.type_of(l)
        if t and t[0] == "cls":
            ms = self.E.methods(t, "__call__")
            if ms: return self.apply(ms, args, kw, st, e, recv=frozenset([l]))
        return self.foreign(args, kw, st, e)

    def construct(self, cq, args, kw, st, e):
        c = self.E.prog.classes[cq]
        if c.name == "OrderedSet":
            l = self.alloc(e, "oset", st)
            for a in args: self.put(st, l, "[]", self.elements(a[1] if isinstance(a, tuple) else a, st, e))
            return frozenset([l])
        l = self.alloc(e, "cls:" + cq, st)
        init = c.find("__init__")
        if init is not None:
            self.apply([init], args, kw, st, e, recv=frozenset([l]))
        elif c.dataclass or any(k.dataclass for k in c.mro()):
            fs = [f[0] for f in c.fields()]
            for i, a in enumerate(args):
                if isinstance(a, tuple) and a and a[0] == "*":
                    for n in fs[i:]: self.put(st, l, "." + n, a[1])
                    break
                if i < len(fs): self.put(st, l, "." + fs[i], a, True)
            for k, v in kw.items():
                if k != "**": self.put(st, l, "." + k, v, True)
            m = c.find("__post_init__")
            if m: self.apply([m], [], {}, st, e, recv=frozenset([l]))
        return frozenset([l])

    def apply(self, fs, args, kw, st, e, recv=None):
        out = E0
        base = st
        ends = []
        for f in fs:
            ends.append((f, st.copy() if len(fs) > 1 else st))
        res = None
        for f, x in ends:
            out |= self.apply1(f, args, kw, x, e, recv)
            res = join(res, x)
        if len(fs) > 1: st.env, st.heap = res.env, res.heap
        return out

    def apply1(self, f, args, kw, st, e, recv):
        E = self.E; fid = id(f.node); S = E.sum[fid]
        self.calls.add(fid)
        if S.user: self.S.user = True
        if f.abstract: self.S.user = True
        binding = {}; params = list(f.params)
        if recv is not None and not f.static and params and f.cls is not None and f.parent is None and not isinstance(f.node, ast.Lambda): binding[params.pop(0)] = recv
        extra = E0; i = 0; rest = E0
        for a in args:
            if isinstance(a, tuple) and a and a[0] == "*":
                for n in params[i:]: binding[n] = binding.get(n, E0) | a[1]
                extra |= a[1]; rest = a[1]; continue
            if i < len(params): binding[params[i]] = binding.get(params[i], E0) | a
            else: extra |= a
            i += 1
        for k, v in kw.items():
            if k == "**":
                for n in params:
                    binding.setdefault(n, E0); binding[n] |= v
            elif k in f.params or k in f.kwonly: binding[k] = v
            elif f.kwarg: binding["**" + f.kwarg] = binding.get("**" + f.kwarg, E0) | v
        for n in params + f.kwonly:
            if n not in binding:
                d = f.defaults.get(n)
                if d is None: binding[n] = E0; continue
                if E.mutable_value(d, f.module): binding[n] = frozenset([("d", fid, n)])
                elif isinstance(d, ast.Name): binding[n] = self.resolved(E.prog.resolve(f.module, d.id), d.id) if E.prog.resolve(f.module, d.id) else E0
                else: binding[n] = E0
        sites = {l for l in list(S.heap) + list(S.ret) if l[0] == "n"}
        for v, s, h, own in S.effects.values(): sites |= {l for l in v if l[0] == "n"}
        for m in S.heap.values():
            for v, d in m.values(): sites |= {l for l in v if l[0] == "n"}
        # results of an earlier call of the same function are older objects now; the arguments too
        keep = dict(st.env)
        st.env = dict(st.env)
        for n, v in binding.items(): st.env["<arg>" + n] = v
        if recv is not None: st.env["<recv>"] = recv
        self.age(st, {l for l in sites})
        for n in list(binding): binding[n] = st.env.pop("<arg>" + n)
        st.env.pop("<recv>", None)
        if f.vararg is not None:
            l = self.alloc(e, "tuple", st, "varargs"); self.put(st, l, "[]", extra); binding[f.vararg] = frozenset([l])
        if f.kwarg is not None:
            l = self.alloc(e, "dict", st, "kwargs"); self.put(st, l, "[]", binding.pop("**" + f.kwarg, E0)); binding[f.kwarg] = frozenset([l])
        pre = St(st.env, {k: dict(v) for k, v in st.heap.items()})
        memo = {}
        def m(l):
            if l in memo: return memo[l]
            if l[0] == "p":
                if l[1] != fid: r = frozenset([l])
                elif l[2].startswith("^"):
                    # a variable of the enclosing function: known when called from there
                    n = l[2][1:]
                    if f.parent is not None and id(f.parent.node) == self.fid: r = pre.env.get(n, E0)
                    elif f.parent is not None and self.f.parent is f.parent: r = frozenset([("p", self.fid, l[2])])
                    else: r = frozenset([l])
                else: r = binding.get(l[2], E0)
            elif l[0] == "f":
                r = E0
                for b in m(l[1]):
                    if l[2].startswith("[") and l[2] not in ("[]", "[k]"): r |= self.position(frozenset([b]), int(l[2][1:-1]), pre)
                    else: r |= self.load(pre, b, l[2]) if b[0] not in ("fn", "bm", "x") else E0
            elif l[0] == "o":
                r = self.of_type(m(l[1]), l[2], pre)
            elif l[0] == "bm":
                rv = E0
                for b in l[2]: rv |= m(b)
                r = frozenset([("bm", l[1], rv)])
            else: r = frozenset([l])
            memo[l] = r
            return r
        def ms(v):
            out = E0
            for x in v: out |= m(x)
            return out
        for (l, k, site), (v, sure, how, own) in S.effects.items():
            tgt = m(l); mv = ms(v)
            for x in tgt:
                if x[0] == "c":
                    key = (("ca", x[1], k.lstrip(".")), "=", site)
                elif x[0] in ("fn", "bm", "x"): continue
                elif root(x)[0] == "n": continue
                else: key = (x, k, site)
                self.record(key, mv, sure, how, own or E.owner(key[0], key[1]))
        for l, mm in S.heap.items():
            if l[0] == "n":
                st.heap[l] = {k: (ms(v), d) for k, (v, d) in mm.items()}
        for l, mm in S.heap.items():
            if l[0] == "n": continue
            tgt = m(l)
            for x in tgt:
                if x[0] in ("c", "fn", "bm", "x"): continue
                for k, (v, d) in mm.items():
                    self.put(st, x, k, ms(v), d and len(tgt) == 1 and (x[0] == "n" and x[3] == 0 or x[0] == "p"))
        return ms(S.ret)

    def of_type(self, locs, t, st):
        """objects of type t that are reached from these"""
        out = E0; seen = set(); todo = list(locs)
        while todo:
            x = todo.pop()
            if x in seen or x[0] in ("c", "fn", "bm", "x"): continue
            seen.add(x)
            if root(x)[0] != "n": out |= frozenset([("o", root(x), t)]); continue
            tx = self.E.type_of(x)
            if t is None: out |= frozenset([x])
            elif tx == t or tx and t and tx[0] == "cls" == t[0] and self.E.prog.classes.get(tx[1]) and self.E.prog.classes[tx[1]].is_sub(t[1]): out |= frozenset([x])
            for v, d in st.heap.get(x, {}).values(): todo += list(v)
        return out

    def closure(self, f, st):
        """a function that is created may be called: its effects on the enclosing variables count"""
        S = self.E.sum[id(f.node)]; self.calls.add(id(f.node))
        if S.user: self.S.user = True
        for (l, k, site), (v, sure, how, own) in list(S.effects.items()):
            r = root(l)
            if r[0] == "p" and r[1] == id(f.node) and r[2].startswith("^"):
                n = r[2][1:]
                tg = st.env.get(n, E0)
                path = []
                x = l
                while x[0] in ("f", "o"): path.append((x[0], x[2])); x = x[1]
                for op, key in reversed(path):
                    t2 = E0
                    if op == "o": t2 = self.of_type(tg, key, st)
                    else:
                        for b in tg: t2 |= self.load(st, b, key)
                    tg = t2
                for x in tg:
                    if root(x)[0] != "n" and x[0] not in ("c", "fn", "bm", "x"):
                        self.record((x, k, site), E0, sure, how, own)
                    else: self.put(st, x, k, frozenset(y for y in v if root(y)[0] != "p"))
            elif r[0] in ("g", "ca", "d", "fo"):
                self.record((l, k, site), E0, sure, how, own)

    def external(self, name, args, kw, st, e):
        short = name.split(".")[-1]; a = self.flat(args, kw)
        first = (args[0][1] if isinstance(args[0], tuple) and args[0] and args[0][0] == "*" else args[0]) if args else E0
        for l in a:
            if l[0] in ("fn", "bm"): self.call_value(l, [E0], {}, st, e)     # key functions and callbacks
        if short in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "deque"):
            kind = {"set": "set", "frozenset": "set", "tuple": "tuple"}.get(short, "list")
            v = self.elements(first, st, e)
            l = self.alloc(e, kind, st); self.put(st, l, "[]", v); return frozenset([l])
        if name in ("dict", "collections.OrderedDict", "collections.defaultdict", "collections.Counter") or short in ("defaultdict", "OrderedDict", "Counter"):
            l = self.alloc(e, "dict", st)
            for x in first:
                if x[0] in ("c", "fn", "bm", "x"): continue
                if self.kind(x) == "dict": self.put(st, l, "[]", self.load(st, x, "[]")); self.put(st, l, "[k]", self.load(st, x, "[k]"))
                else:
                    for y in self.load(st, x, "[]"):
                        self.put(st, l, "[k]", self.position(frozenset([y]), 0, st)); self.put(st, l, "[]", self.position(frozenset([y]), 1, st))
            for k, v in kw.items(): self.put(st, l, "[]", v)
            return frozenset([l])
        if short == "fromkeys":
            l = self.alloc(e, "dict", st); self.put(st, l, "[k]", self.elements(first, st, e)); return frozenset([l])
        if short == "enumerate":
            t = self.alloc(e, "tuple", st, "t"); self.put(st, t, "[1]", self.elements(first, st, e)); self.put(st, t, "[0]", E0)
            l = self.alloc(e, "list", st); self.put(st, l, "[]", frozenset([t])); return frozenset([l])
        if short in ("zip", "zip_longest"):
            els = [self.elements(x[1] if isinstance(x, tuple) and x and x[0] == "*" else x, st, e) for x in args]
            t = self.alloc(e, "tuple", st, "t")
            if any(isinstance(x, tuple) and x and x[0] == "*" for x in args):
                for v in els: self.put(st, t, "[]", v)
            else:
                for i, v in enumerate(els): self.put(st, t, "[%d]" % i, v)
            l = self.alloc(e, "list", st); self.put(st, l, "[]", frozenset([t])); return frozenset([l])
        if name in ("copy.copy",) or short == "copy" and name != "copy":
            l0 = E0
            for x in first:
                t = self.E.type_of(x)
                kind = ("cls:" + t[1]) if t and t[0] == "cls" else t[0] if t and t[0] in ("list", "dict", "set", "oset", "tuple") else "ext"
                l = self.alloc(e, kind, st); self.put(st, l, "*", frozenset([x])); l0 |= frozenset([l])
            return l0
        if name == "copy":
            return self.external("copy.copy", args, kw, st, e)
        if short == "deepcopy":
            l0 = E0
            for x in first:
                t = self.E.type_of(x)
                kind = ("cls:" + t[1]) if t and t[0] == "cls" else t[0] if t and t[0] in ("list", "dict", "set", "oset", "tuple") else "ext"
                l = self.alloc(e, kind, st); self.put(st, l, "[]", frozenset([l])); l0 |= frozenset([l])
            return l0
        if short == "next":
            out = E0
            for x in first:
                t = self.E.type_of(x)
                mn = self.E.methods(t, "__next__") if t and t[0] == "cls" else []
                if mn: out |= self.apply(mn, [], {}, st, e, recv=frozenset([x]))
                else: out |= self.load(st, x, "[]")
            return out | (args[1] if len(args) > 1 and not isinstance(args[1], tuple) else E0)
        if short in ("min", "max"):
            return a if len(args) > 1 else self.elements(first, st, e) | kw.get("default", E0)
        if short == "getattr":
            n = e.args[1] if len(e.args) > 1 else None
            if isinstance(n, ast.Constant): return self.getattr(first, str(n.value), st, e) | (args[2] if len(args) > 2 else E0)
            return E0
        if short in ("setattr", "__setattr__"):
            n = e.args[1] if len(e.args) > 1 else None
            for l in first:
                self.mutate(st, l, "." + (str(n.value) if isinstance(n, ast.Constant) else "?"), args[2] if len(args) > 2 else E0, True, e, "setattr")
            return E0
        if short in ("delattr",):
            for l in first: self.mutate(st, l, ".?", E0, True, e, "delattr")
            return E0
        if short == "vars": return first
        if short in ("shuffle", "heapify", "heappush", "heappop", "insort", "insort_left", "insort_right"):
            for l in first: self.mutate(st, l, "[]", a - first, True, e, short)
            return self.values(first, st)
        if short == "super": return E0
        if short == "type":
            out = E0
            for x in first:
                t = self.E.type_of(x)
                if t and t[0] == "cls": out |= frozenset([("c", t[1])])
            return out
        if short in ("cast",) and len(args) > 1: return args[1]
        if short in SAFE_EXT:
            for x in args:
                if short in ("sum", "any", "all"): self.elements(x[1] if isinstance(x, tuple) and x and x[0] == "*" else x, st, e)
            return E0
        # anything else from outside: a new object that may hold its arguments
        hold = E0
        for x in a: hold |= frozenset([x]) | (self.load(st, x, "[]") if x[0] not in ("c", "fn", "bm", "x") else E0)
        l = self.alloc(e, "ext", st); self.put(st, l, "[]", hold); return frozenset([l])

    def method_call(self, recv, name, args, kw, st, e, fn):
        E = self.E; out = E0
        if not recv:
            # a method of a primitive: join, split, strip, format …
            if name in ("split", "rsplit", "splitlines", "partition", "findall", "encode"):
                return frozenset([self.alloc(e, "list", st)])
            for a in args:
                self.elements(a[1] if isinstance(a, tuple) and a and a[0] == "*" else a, st, e) if name == "join" else None
            return E0
        groups = {}
        for l in recv:
            if l[0] == "x":
                if l[1].startswith("module:"):
                    for g in self.getattr(frozenset([l]), name, st, fn): out |= self.call_value(g, args, kw, st, e)
                else: out |= self.external(l[1] + "." + name, args, kw, st, e)
                continue
            if l[0] == "c":
                c = E.prog.classes[l[1]]; m = c.find(name)
                if m is not None:
                    if m.static: out |= self.apply([m], args, kw, st, e)
                    elif m.clsmethod: out |= self.apply([m], args, kw, st, e, recv=frozenset([l]))
                    else: out |= self.apply([m], args[1:], kw, st, e, recv=args[0] if args and not isinstance(args[0], tuple) else E0)
                continue
            if l[0] in ("fn", "bm"): continue
            t = E.type_of(l)
            if t and t[0] == "cls":
                ms = E.methods(t, name)
                for t2 in E.kept_in(l):
                    if t2 != t: ms = ms + [m for m in E.methods(t2, name) if m not in ms]
                if ms: out |= self.apply([m for m in ms if not (m.stub() and len(ms) > 1)] or ms, args, kw, st, e, recv=frozenset([l])); self.note_abstract(ms); continue
                vals = self.load(st, l, "." + name); hit = False
                for g in vals:
                    if g[0] in ("fn", "bm", "c"): out |= self.call_value(g, args, kw, st, e); hit = True
                if not hit and name in MUTATORS and not vals - self.ext_path(l, "." + name):
                    # no class of the package has such a method: the declared type is wrong, the object is a collection
                    self.builtin(l, None, name, args, kw, st, e)
                if not hit: out |= self.foreign(args, kw, st, e)
                continue
            if t and t[0] == "ext":
                hold = self.flat(args, kw)
                x = self.alloc(e, "ext", st)
                if name in ("fetchall", "fetchone"): hold = E0
                self.put(st, x, "[]", self.load(st, l, "[]") if l[0] == "n" else E0)
                out |= frozenset([x]); continue
            if t and t[0] in PRIM: continue
            if t and t[0] == "callable": t = None
            out |= self.builtin(l, t, name, args, kw, st, e)
        return out

    def note_abstract(self, ms):
        if any(m.abstract for m in ms): self.S.user = True

    def fits(self, m, args, kw):
        """could this call be a call of method m?"""
        if any(isinstance(a, tuple) and a and a[0] == "*" for a in args) or "**" in kw: return True
        ps = m.params[0 if m.static else 1:]
        if m.vararg is None and len(args) > len(ps): return False
        if m.kwarg is None and any(k not in ps and k not in m.kwonly for k in kw): return False
        given = set(ps[:len(args)]) | set(kw)
        return all(n in given or n in m.defaults for n in ps)

    def builtin(self, l, t, name, args, kw, st, e):
        known = bool(t)
        vals = [a[1] if isinstance(a, tuple) and a and a[0] == "*" else a for a in args]
        av = E0
        for v in vals: av |= v
        for x in av | self.flat([], kw):
            if x[0] in ("fn", "bm"): self.call_value(x, [E0], {}, st, e)
        others = [m for m in self.E.by_name.get(name, []) if self.fits(m, args, kw)]
        if not known and others and (name not in MUTATORS or l[0] in ("fo",)):
            # an object of unknown type: every method of that name
            return self.apply([m for m in others if not m.stub()] or others, args, kw, st, e, recv=frozenset([l]))
        if name in MUTATORS:
            sure = known or not others
            how = f"call of {name}()"
            if name in STORES: self.mutate(st, l, "[]", vals[0] if vals else E0, sure, e, how)
            elif name in ("extend", "update", "extendleft", "__iadd__"):
                v = E0
                for a in vals:
                    v |= self.values(a, st) if t and t[0] == "dict" else self.elements(a, st, e)
                    if t and t[0] == "dict":
                        for x in a: self.put(st, l, "[k]", self.load(st, x, "[k]")) if x[0] not in ("c", "fn", "bm", "x") else None
                for a in kw.values(): v |= a
                self.mutate(st, l, "[]", v, sure, e, how)
            elif name in ("insert",): self.mutate(st, l, "[]", vals[1] if len(vals) > 1 else av, sure, e, how)
            elif name in ("setdefault", "__setitem__"):
                self.mutate(st, l, "[]", vals[1] if len(vals) > 1 else E0, sure, e, how)
                return self.load(st, l, "[]")
            elif name in ("pop", "popitem", "popleft"):
                r = self.load(st, l, "[]"); self.mutate(st, l, "[]", E0, sure, e, how); return r | (vals[1] if len(vals) > 1 else E0)
            else: self.mutate(st, l, "[]", E0, sure, e, how)
            return E0
        if name in ("get", "__getitem__"): return self.load(st, l, "[]") | (vals[1] if len(vals) > 1 else E0)
        if name == "values": 
            n = self.alloc(e, "list", st); self.put(st, n, "[]", self.load(st, l, "[]")); return frozenset([n])
        if name == "keys":
            n = self.alloc(e, "list", st); self.put(st, n, "[]", self.load(st, l, "[k]")); return frozenset([n])
        if name == "items":
            tp = self.alloc(e, "tuple", st, "t"); self.put(st, tp, "[0]", self.load(st, l, "[k]")); self.put(st, tp, "[1]", self.load(st, l, "[]"))
            n = self.alloc(e, "list", st); self.put(st, n, "[]", frozenset([tp])); return frozenset([n])
        if name in ("copy", "__copy__"):
            n = self.alloc(e, t[0] if t and t[0] in ("list", "dict", "set", "oset") else "dict", st)
            self.put(st, n, "*", frozenset([l])); return frozenset([n])
        if name in ("union", "intersection", "difference", "symmetric_difference", "__or__", "__and__", "__sub__"):
            n = self.alloc(e, "set", st); v = self.load(st, l, "[]")
            for a in vals: v |= self.values(a, st)
            self.put(st, n, "[]", v); return frozenset([n])
        if name in ("__iter__", "__reversed__"): 
            n = self.alloc(e, "list", st); self.put(st, n, "[]", self.load(st, l, "[]")); return frozenset([n])
        if name in ("__next__",): return self.load(st, l, "[]")
        if name in ("index", "count", "__len__", "__contains__", "join", "strip", "lower", "upper", "startswith", "endswith", "replace", "format", "find", "isdigit", "group", "start", "end"): return E0
        if name in ("split", "rsplit", "splitlines"): return frozenset([self.alloc(e, "list", st)])
        if others: return self.apply([m for m in others if not m.stub()] or others, args, kw, st, e, recv=frozenset([l]))
        if t and t[0] in ("list", "dict", "set", "oset", "tuple"): return E0
        # unknown object, unknown method: code outside the package
        self.E.unresolved.add((self.f.qual, name))
        return self.foreign(args, kw, st, e)


_cache = {}
def effects_of(prog):
    k = id(prog)
    if k not in _cache: _cache[k] = (Effects(prog), prog)
    return _cache[k][0]
