"""Information flow through the whole program: order of unordered collections, identity/hash/time, and the state of the logger.

A value is (tags, element value).  Tags
    ('cls', C) ('kind', k) ('fn', f) ('bm', f) ('c', C) ('x', dotted)      what the value may be
    ('U', origin)   a collection whose order is not determined (a set, or a list made from one)
    ('X', origin)   a value that is not determined by the input (depends on such an order, time, chance)
    ('H', origin)   a hash or identity: fine to compare for equality and to look things up, nothing else
    ('G', origin)   a value that depends on the logger
Flow-sensitive inside a function, one joined value per parameter, result, field and captured variable; computed until
nothing changes.  Findings are recorded at the sinks in the last round.
"""
import ast
from .effects import effects_of, root
from .program import Class

E = frozenset()
BOT = (E, None)
TAINT = ("U", "X", "H", "G")
SEQ_EXT = {"list", "tuple", "iter", "reversed", "deque", "chain", "islice", "from_iterable", "product", "permutations", "combinations", "groupby", "accumulate", "takewhile", "dropwhile", "cycle", "starmap", "compress", "pairwise", "filterfalse", "most_common", "OrderedDict", "Counter", "defaultdict"}
CLOCK = ("time.", "random.", "uuid.", "secrets.", "os.urandom", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.now", "datetime.date.today", "os.getpid", "threading.get_ident", "os.times")
CLOCK_OK = ("time.sleep", "random.seed")
LISTING = ("os.listdir", "os.scandir", "glob.glob", "glob.iglob", "os.walk", "concurrent.futures.as_completed")
SINK_METHODS = {"execute", "executemany", "executescript", "query", "post", "request", "assertEqual"}
NAMES_ONLY = ("open", "os.replace", "os.rename", "os.remove", "os.unlink", "os.makedirs", "os.mkdir", "tempfile.")
SETISH = {"union", "intersection", "difference", "symmetric_difference"}
MUT = {"append", "extend", "insert", "appendleft", "extendleft"}
STR_M = {"join", "format", "split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "startswith", "endswith", "encode", "decode", "title", "capitalize", "splitlines", "find", "rfind", "isdigit", "isalpha", "zfill", "ljust", "rjust", "center", "casefold", "partition", "rpartition"}
CONT_M = {"append", "extend", "insert", "remove", "pop", "clear", "update", "add", "discard", "setdefault", "sort", "reverse", "index", "count", "copy", "get", "keys", "values", "items", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "popitem", "intersection_update", "difference_update", "appendleft", "popleft"}


def j(a, b):
    if a is b or b is BOT or b == BOT: return a
    if a == BOT: return b
    t = a[0] | b[0]
    # one origin per kind of taint
    for k in TAINT:
        o = [x for x in t if x[0] == k]
        if len(o) > 1: t = t - frozenset(o) | {min(o)}
    e = a[1] if b[1] is None else b[1] if a[1] is None else j(a[1], b[1])
    return (t, e)


def jj(vs):
    r = BOT
    for v in vs: r = j(r, v)
    return r


def cut(v, d=3):
    """bounded nesting"""
    if v[1] is None: return v
    if d == 0:
        t = v[0]; e = v[1]
        while e is not None: t = t | e[0]; e = e[1]
        return j((t, None), BOT)
    return (v[0], cut(v[1], d - 1))


def mk(kind, elem=None, *tags): return cut((frozenset([("kind", kind)]) | frozenset(tags), elem))
def tags(v, *ks): return frozenset(t for t in v[0] if t[0] in ks)
def plus(v, ts): return v if not ts else j(v, (frozenset(ts), None))
def elem(v): return v[1] or BOT
def deep(v, *ks):
    out = E
    while v is not None: out |= tags(v, *ks); v = v[1]
    return out
def kinds(v): return {t[1] for t in v[0] if t[0] == "kind"}
def classes(v): return [t[1] for t in v[0] if t[0] == "cls"]


class Env:
    __slots__ = ("v",)
    def __init__(self, v=None): self.v = v or {}
    def copy(self): return Env(dict(self.v))


def jenv(a, b):
    if a is None: return b
    if b is None: return a
    r = {}
    for k in a.v.keys() | b.v.keys():
        x, y = a.v.get(k), b.v.get(k)
        if x is None or y is None: r[k] = x or y
        else: r[k] = (j(x[0], y[0]), min(x[1], y[1]))
    return Env(r)


class Finding:
    __slots__ = ("kind", "verdict", "func", "line", "msg")
    def __init__(self, kind, verdict, func, line, msg): self.kind = kind; self.verdict = verdict; self.func = func; self.line = line; self.msg = msg


class Flow:
    def __init__(self, prog, roots, rounds=60):
        self.prog = prog; self.eff = effects_of(prog); self.roots = roots
        self.funcs = {id(f.node): f for f in prog.all_functions()}
        self.params = {}; self.rets = {}; self.fields = {}; self.clos = {}; self.outs = {}; self.globs = {}
        self.attr_index = {}
        self.callpc = {k: None for k in self.funcs}        # kinds of dependence that hold at every call
        self.children = {}; self.captured = {}
        for k, f in self.funcs.items():
            if f.parent is not None: self.children.setdefault(id(f.parent.node), {})[f.name] = f
        for k, f in self.funcs.items():
            own = set(f.params) | {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            p = f.parent
            while p is not None:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Name) and n.id not in f.params: self.captured.setdefault(id(p.node), set()).add(n.id)
                p = p.parent
        self.by_name = {}
        for c in prog.classes.values():
            for n, m in c.methods.items(): self.by_name.setdefault(n, []).append(m)
        self.calls = 0; self.targets = {}                      # call node -> what it may run
        self.rounds = 0
        for i in range(rounds):
            self.rounds += 1; self.changed = False; self.findings = []; self.seenpc = {}
            for k, f in self.funcs.items(): Run(self, f).run()
            for k in self.funcs:
                pc = self.seenpc.get(k)
                new = frozenset() if pc is None else pc
                if k in roots or pc is None: new = frozenset()
                if new != self.callpc[k]: self.callpc[k] = new; self.changed = True
            if not self.changed: break
        self.converged = not self.changed
        uniq = {}
        for f in self.findings: uniq.setdefault((f.kind, f.func, f.line, f.msg), f)
        self.findings = list(uniq.values())

    def up(self, table, key, v):
        v = cut(v)
        o = table.get(key, BOT); n = j(o, v)
        if n != o: table[key] = n; self.changed = True

    def declared(self, t):
        """value of a declared type"""
        if t is None: return BOT
        if t[0] == "cls": return (frozenset([("cls", t[1])]), None)
        if t[0] in ("list", "oset"): return mk("list", self.declared(t[1]) if len(t) > 1 else None)
        if t[0] == "set": return mk("set", self.declared(t[1]) if len(t) > 1 else None, ("U", "a set"))
        if t[0] == "dict": return mk("dict", j(self.declared(t[1]), self.declared(t[2])) if len(t) > 2 else None)
        if t[0] == "tuple": return mk("tuple", jj([self.declared(x) for x in t[1:]]))
        if t[0] in ("str",): return mk("str")
        if t[0] in ("int", "float", "bool"): return mk("num")
        return BOT

    def related(self, cq):
        c = self.prog.classes.get(cq)
        if c is None: return [cq]
        return [x.qual for x in c.mro()] + [x.qual for x in self.prog.subclasses(c)]

    def field(self, cq, attr):
        v = BOT
        for q in dict.fromkeys(self.related(cq)): v = j(v, self.fields.get((q, attr), BOT))
        v = j(v, self.fields.get(("?", attr), BOT))
        t = self.eff.ftype(cq, attr)
        if t is not None: v = j(v, self.declared(t))
        return v

    def store(self, cq, attr, v):
        if (cq, attr) not in self.fields: self.attr_index.setdefault(attr, set()).add(cq)
        self.up(self.fields, (cq, attr), v)


class Run:
    def __init__(self, F, f):
        self.F = F; self.f = f; self.fid = id(f.node); self.unord = []; self.pc = []; self.loops = []; self.ret = BOT; self.seen_len1 = set()
        self.is_logger = f.cls is not None and f.cls.name == "Logger"

    def find(self, kind, verdict, node, msg): self.F.findings.append(Finding(kind, verdict, self.f, getattr(node, "lineno", self.f.node.lineno), msg))
    def at(self, node): return f"{self.f.module.rel}:{getattr(node, 'lineno', 0)}"
    def dep(self):
        d = frozenset().union(*self.pc) if self.pc else E
        return d

    def run(self):
        F = self.F; f = self.f; env = Env()
        cp = F.callpc[self.fid]
        if cp: self.pc.append(cp)
        first = f.params[0] if f.params else None
        for p in f.params + f.kwonly + [x for x in (f.vararg, f.kwarg) if x]:
            v = F.params.get((self.fid, p), BOT)
            if p == first and f.cls is not None and not f.static and f.parent is None and not isinstance(f.node, ast.Lambda):
                v = (frozenset([("cls", f.cls.qual)]), None)
            else: v = j(v, F.declared(F.prog.parse_type(f.ann.get(p), f.module)))
            if p in f.defaults: v = j(v, self.ev(f.defaults[p], Env()))
            if p == f.vararg: v = mk("tuple", v)
            if p == f.kwarg: v = mk("dict", v)
            env.v[p] = (v, 0)
            self.capture(p, v)
        end = self.block(f.body, env)
        ends = [e for e in (end, getattr(self, "out", None)) if e is not None]
        if ends:
            last = ends[0] if len(ends) == 1 else jenv(*ends)
            for p in f.params:
                if p in last.v and (p != first or f.cls is None):
                    t = deep(last.v[p][0], *TAINT)
                    if t: F.up(F.outs, (self.fid, p), last.v[p][0])
        if f.is_gen: self.ret = j(self.ret, mk("iter"))
        if f.name == "__hash__": self.ret = mk("num")
        F.up(F.rets, self.fid, self.ret)
        if self.fid in F.roots: self.root_result()

    def root_result(self):
        f = self.f
        if f.name == "__hash__" or self.is_logger: return
        v = self.ret
        x = deep(v, "X", "H")
        if x: self.find("X", False, f.node, f"the result of {f.qual} depends on {min(x)[1]}")
        u = self.listy_u(v)
        if u: self.find("X", False, f.node, f"the order of the result of {f.qual} depends on {min(u)[1]}")
        g = deep(v, "G")
        if g: self.find("G", False, f.node, f"the result of {f.qual} depends on {min(g)[1]}")

    def listy_u(self, v, seen=()):
        """unordered, and not (only) a set"""
        out = E
        while v is not None:
            u = tags(v, "U")
            if u and kinds(v) != {"set"}: out |= u
            v = v[1]
        return out

    def capture(self, name, v):
        if name in self.F.captured.get(self.fid, ()): self.F.up(self.F.clos, (self.fid, name), v)

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            if env is None: return None
            env = self.stmt(s, env)
        return env

    def same_return(self):
        """every way out returns the same variable (or nothing): leaving early decides nothing about the result"""
        if not hasattr(self, "_sr"):
            rs = [n for n in own_nodes(self.f.node) if isinstance(n, ast.Return)]
            self._sr = len(rs) > 1 and len({ast.dump(r.value) if r.value is not None else "" for r in rs}) == 1 and isinstance(rs[0].value, (ast.Name, ast.Constant, type(None)))
        return self._sr

    def sticky(self):
        """what follows depends on the conditions that led to leaving early"""
        d = self.dep()
        if d: self.stick = getattr(self, "stick", E) | d

    def stmt(self, s, env):
        st = getattr(self, "stick", E)
        if st and (not self.pc or not st <= self.pc[0]):
            self.pc.insert(0, st)
        if isinstance(s, ast.Expr): self.ev(s.value, env); return env
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets: self.assign(t, v, env, s, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = j(self.ev(s.value, env), self.F.declared(self.F.prog.parse_type(s.annotation, self.f.module)) if not isinstance(s.value, (ast.List, ast.Dict)) else BOT)
                self.assign(s.target, v, env, s, s.value)
            return env
        if isinstance(s, ast.AugAssign): self.augment(s, env); return env
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else BOT
            if not self.same_return(): v = plus(v, self.dep() if s.value is not None else E)
            if self.unord and s.value is not None and any(isinstance(x, ast.Name) for x in ast.walk(s.value)): v = plus(v, [("X", "the order of " + self.unord[-1])])
            self.ret = j(self.ret, v); self.sticky(); self.out = jenv(getattr(self, "out", None), env); return None
        if isinstance(s, ast.If):
            t = self.ev(s.test, env)
            self.note_len1(s.test)
            d = self.cond(t)
            if d: self.pc.append(d)
            a = self.block(s.body, env.copy()); b = self.block(s.orelse, env.copy())
            if d: self.drop(d)
            return jenv(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)): return self.forloop(s, env)
        if isinstance(s, ast.While):
            cur = env
            for _ in range(8):
                x = cur.copy(); t = self.ev(s.test, x); d = self.cond(t)
                if d: self.pc.append(d)
                self.loops.append([None, None, 0]); e = self.block(s.body, x); brk, cont, _l = self.loops.pop()
                if d: self.drop(d)
                nxt = jenv(cur, jenv(e, cont))
                if nxt.v == cur.v: break
                cur = nxt
            end = jenv(cur.copy(), brk)
            if s.orelse: end = jenv(self.block(s.orelse, end), brk)
            return end
        if isinstance(s, (ast.Break, ast.Continue)):
            self.sticky()
            i = 0 if isinstance(s, ast.Break) else 1
            if self.loops: self.loops[-1][i] = jenv(self.loops[-1][i], env.copy())
            return None
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                v = self.ev(s.exc, env)
                x = deep(v, "X", "H") | tags((self.dep(), None), "X")
                if x: self.find("X", False, s, f"the error depends on {min(x)[1]}")
                elif self.unord and self.mentions_loop(s.exc, env): self.find("X", False, s, f"which error is raised depends on the order of {self.unord[-1]}")
                g = deep(v, "G") | tags((self.dep(), None), "G")
                if g: self.find("G", False, s, f"an error is raised depending on {min(g)[1]}")
            self.sticky(); return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None: self.assign(i.optional_vars, v, env, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            before = env.copy(); mid = self.block(s.body, env)
            h0 = jenv(before, mid.copy() if mid is not None else None)
            ends = self.block(s.orelse, mid) if mid is not None else None
            for h in s.handlers:
                x = h0.copy()
                if h.name: x.v[h.name] = (mk("ext"), len(self.unord))
                ends = jenv(ends, self.block(h.body, x))
            if s.finalbody:
                if ends is None: self.block(s.finalbody, h0.copy()); return None
                return self.block(s.finalbody, ends)
            return ends
        if isinstance(s, ast.Assert): self.ev(s.test, env); return env
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            v = (frozenset([("fn", id(s))]), None) if id(s) in self.F.funcs else BOT
            env.v[s.name] = (v, len(self.unord)); self.capture(s.name, v); return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript): self.ev(t.value, env); self.ev(t.slice, env)
            return env
        if isinstance(s, ast.Global): self.glob = getattr(self, "glob", set()) | set(s.names); return env
        if isinstance(s, ast.Match):
            v = self.ev(s.subject, env); d = self.cond(v); end = env.copy()
            if d: self.pc.append(d)
            for c in s.cases:
                x = env.copy()
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: x.v[n.name] = (j(v, elem(v)), len(self.unord))
                end = jenv(end, self.block(c.body, x))
            if d: self.drop(d)
            return end
        return env

    def drop(self, d):
        for i in range(len(self.pc) - 1, -1, -1):
            if self.pc[i] is d: del self.pc[i]; return

    def cond(self, t):
        d = tags(t, "X", "G")
        h = tags(t, "H")
        if h: d |= frozenset(("X", o) for _, o in h)
        return d

    def mentions_loop(self, e, env):
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        return any(n in env.v and env.v[n][1] >= len(self.unord) for n in names)

    def note_len1(self, test):
        for n in ast.walk(test):
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" and len(n.ops) == 1 \
               and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value in (1, 2): self.seen_len1.add(ast.unparse(n.left.args[0]))

    def single(self, e):
        s = ast.unparse(e)
        return any(x == s or s.endswith("(" + x + ")") for x in self.seen_len1)

    def forloop(self, s, env):
        it, binder = self.iteration(s.target, s.iter, env)
        d = tags(it, "X", "G")
        u = tags(it, "U") if not self.single(s.iter) else E
        if d: self.pc.append(d)
        cur = env
        before = len(self.unord)
        for _ in range(8):
            x = cur.copy()
            if u: self.unord.append(min(u)[1])
            binder(x)
            self.loops.append([None, None, 0]); e = self.block(s.body, x); brk, cont, _l = self.loops.pop()
            if u:
                self.unord.pop()
                e, cont, brk = (self.mark(y, s, before, min(u)[1]) for y in (e, cont, brk))
            nxt = jenv(cur, jenv(e, cont))
            if nxt.v == cur.v: break
            cur = nxt
        if d: self.drop(d)
        end = jenv(cur.copy(), brk)
        if s.orelse: end = jenv(self.block(s.orelse, cur.copy()), brk)
        return end

    def mark(self, env, loop, level, origin):
        """variables that keep the value of one iteration depend on the order"""
        if env is None: return None
        consts = {}
        for n in ast.walk(loop):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): consts.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.For):
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name): consts.setdefault(t.id, []).append(None)
        for k, (v, lv) in list(env.v.items()):
            if lv > level:
                c = consts.get(k, [None])
                if all(isinstance(x, ast.Constant) for x in c) and len({repr(x.value) for x in c}) == 1: env.v[k] = (v, level); continue
                env.v[k] = (plus(v, [("X", "the order of " + origin)]), level)
        return env

    def iteration(self, target, iter_, env):
        """value iterated over, and a function that binds the target"""
        en = isinstance(iter_, ast.Call) and isinstance(iter_.func, ast.Name) and iter_.func.id == "enumerate" and iter_.args and isinstance(target, ast.Tuple) and len(target.elts) == 2
        if en:
            src = self.ev(iter_.args[0], env); it = src
            def b(x):
                i = mk("num"); u = tags(src, "U")
                if u: i = plus(i, [("X", "the order of " + min(u)[1])])
                self.assign(target.elts[0], i, x, iter_); self.assign(target.elts[1], plus(elem(src), tags(src, "G", "X")), x, iter_)
            return it, b
        it = self.ev(iter_, env)
        v = plus(self.elements(it, iter_), tags(it, "X", "G"))
        return it, lambda x: self.assign(target, v, x, iter_)

    def elements(self, v, node):
        out = elem(v)
        for c in classes(v):
            ms = self.F.eff.methods(("cls", c), "__iter__")
            for m in ms: out = j(out, elem(self.F.rets.get(id(m.node), BOT)))
        return out

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env, n, src=None):
        v = plus(v, self.dep())
        if isinstance(t, ast.Name):
            if t.id in getattr(self, "glob", ()): self.F.up(self.F.globs, (self.f.module.name, t.id), v); return
            env.v[t.id] = (cut(v), len(self.unord)); self.capture(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            u = tags(v, "U")
            e = self.elements(v, n)
            if u and not (len(t.elts) == 1 and not isinstance(t.elts[0], ast.Starred)): e = plus(e, [("X", "the order of " + min(u)[1])])
            e = plus(e, tags(v, "X", "G"))
            elts = src.elts if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in src.elts + t.elts) else None
            for i, x in enumerate(t.elts):
                if elts is not None: self.assign(x, self.ev(elts[i], env), env, n, elts[i])
                elif isinstance(x, ast.Starred): self.assign(x.value, mk("list", e, *u), env, n)
                else: self.assign(x, e, env, n)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, env, n)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env); self.setfield(b, t.attr, v, n)
        elif isinstance(t, ast.Subscript):
            k = self.ev(t.slice, env); b = self.ev(t.value, env)
            extra = set(tags(k, "X", "G"))
            w = mk("dict" if "dict" in kinds(b) or not kinds(b) else "list", j(v, k if "dict" in kinds(b) else BOT))
            if self.inner(t.value, env): extra.add(("U", self.unord[-1]))
            self.grow(t.value, plus(w, extra), env, n)

    def inner(self, e, env):
        """the object is older than the current round of a loop in undetermined order"""
        if not self.unord: return False
        while isinstance(e, (ast.Subscript, ast.Attribute)): e = e.value
        return not (isinstance(e, ast.Name) and e.id in env.v and env.v[e.id][1] >= len(self.unord))

    def setfield(self, b, attr, v, n):
        x = deep(v, "X")
        cs = classes(b)
        logger = cs and all(self.F.prog.classes[c].name == "Logger" for c in cs if c in self.F.prog.classes)
        if logger: return
        if x: self.find("X", False, n, f"the value stored in {attr} depends on {min(x)[1]}")
        if self.unord and tags(v, "X"): pass
        for c in cs or ["?"]: self.F.store(c, attr, v)

    def grow(self, e, v, env, n):
        """the object e denotes now also holds what v holds"""
        v = plus(v, self.dep())
        if isinstance(e, ast.Name):
            if e.id in env.v:
                o, lv = env.v[e.id]; env.v[e.id] = (cut(j(o, v)), lv)
                self.capture(e.id, v)
            elif self.outer(e.id) is not None: self.F.up(self.F.clos, (self.outer(e.id), e.id), v)
            else: self.F.up(self.F.globs, (self.f.module.name, e.id), v)
        elif isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            self.setfield(b, e.attr, v, n)
        elif isinstance(e, ast.Subscript):
            self.grow(e.value, (E, v), env, n)
        elif isinstance(e, ast.Call): self.ev(e, env)

    def augment(self, s, env):
        v = self.ev(s.value, env); t = s.target
        cur = self.ev(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t) if isinstance(t, ast.Name) else t, env)
        ks = kinds(cur) | kinds(v)
        r = self.binop(s.op, cur, v)
        extra = set()
        if isinstance(t, ast.Name) and self.unord and self.inner(t, env):
            if "list" in ks or "tuple" in ks: extra.add(("U", self.unord[-1]))
            elif "str" in ks: extra.add(("X", "the order of " + self.unord[-1]))
        if isinstance(t, ast.Name):
            lv = env.v[t.id][1] if t.id in env.v else 0
            r = plus(plus(r, extra), self.dep())
            if "set" in kinds(cur) and "set" in ks: r = j(r, cur)
            env.v[t.id] = (cut(r), lv); self.capture(t.id, r)
        elif isinstance(t, ast.Attribute):
            if self.inner(t, env) and ("list" in ks or "str" in ks): extra.add(("U", self.unord[-1]))
            self.setfield(self.ev(t.value, env), t.attr, plus(plus(r, extra), self.dep()), s)
        elif isinstance(t, ast.Subscript):
            k = self.ev(t.slice, env)
            self.grow(t.value, plus((frozenset([("kind", "dict")]) if "dict" in kinds(self.ev(t.value, env)) else E, r), tags(k, "X", "G")), env, s)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        if e is None: return BOT
        if isinstance(e, ast.Constant):
            return mk("str") if isinstance(e.value, str) else mk("num") if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) else BOT
        if isinstance(e, ast.Name): return self.name(e, env)
        if isinstance(e, ast.Attribute): return self.attr(self.ev(e.value, env), e.attr, e)
        if isinstance(e, ast.Call): return self.call(e, env)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env); ks = kinds(b)
            if isinstance(e.slice, ast.Slice):
                ts = E
                for x in (e.slice.lower, e.slice.upper, e.slice.step):
                    if x is not None: ts |= tags(self.ev(x, env), "X", "G")
                r = plus(b, ts)
                u = tags(b, "U")
                whole = e.slice.lower is None and e.slice.upper is None
                if u and not whole: r = plus(r, [("X", "the order of " + min(u)[1])])
                return r
            i = self.ev(e.slice, env)
            r = elem(b); r = plus(r, tags(b, "X", "G") | tags(i, "X", "G"))
            if tags(b, "U") and "dict" not in ks and not self.single(e.value): r = plus(r, [("X", "the order of " + min(tags(b, "U"))[1])])
            if tags(i, "H") and "dict" not in ks: r = plus(r, [("X", min(tags(i, "H"))[1])])
            for c in classes(b):
                for m in self.F.eff.methods(("cls", c), "__getitem__"): r = j(r, self.F.rets.get(id(m.node), BOT))
            return r
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            el = BOT; ts = set()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, env); el = j(el, self.elements(v, x)); ts |= tags(v, "X", "G", "U")
                else: el = j(el, self.ev(x, env))
            if isinstance(e, ast.Set): ts.add(("U", f"a set ({self.at(e)})"))
            return mk({ast.List: "list", ast.Tuple: "tuple", ast.Set: "set"}[type(e)], el, *ts)
        if isinstance(e, ast.Dict):
            el = BOT; ts = set()
            for k, v in zip(e.keys, e.values):
                x = self.ev(v, env)
                if k is None: el = j(el, elem(x)); ts |= tags(x, "X", "G", "U")
                else: el = j(el, j(self.ev(k, env), x))
            return mk("dict", el, *ts)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)): return self.comp(e, env)
        if isinstance(e, ast.BinOp): return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.BoolOp):
            r = BOT; n = 0
            for x in e.values:
                v = self.ev(x, env); r = j(r, v); d = self.cond(v); self.note_len1(x)
                self.pc.append(d); n += 1
            del self.pc[len(self.pc) - n:]
            return r
        if isinstance(e, ast.IfExp):
            t = self.ev(e.test, env); d = self.cond(t); self.note_len1(e.test)
            self.pc.append(d); r = j(self.ev(e.body, env), self.ev(e.orelse, env)); self.pc.pop()
            return plus(r, d)
        if isinstance(e, ast.Compare):
            vs = [self.ev(e.left, env)] + [self.ev(x, env) for x in e.comparators]
            ts = set()
            for v in vs: ts |= tags(v, "X", "G")
            for op, a, b in zip(e.ops, vs, vs[1:]):
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    for v in (a, b):
                        if tags(v, "U") and not kinds(v) <= {"set", "dict"}: ts.add(("X", "the order of " + min(tags(v, "U"))[1]))
                elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    for v in (a, b):
                        for h in tags(v, "H"): ts.add(("X", h[1]))
            return (frozenset(ts), None)
        if isinstance(e, ast.UnaryOp): return (tags(self.ev(e.operand, env), "X", "G", "H"), None)
        if isinstance(e, ast.JoinedStr):
            ts = set()
            for x in e.values:
                if isinstance(x, ast.FormattedValue): ts |= self.texted(self.ev(x.value, env))
            return mk("str", None, *ts)
        if isinstance(e, ast.Lambda):
            if id(e) in self.F.funcs: return (frozenset([("fn", id(e))]), None)
            return BOT
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env); self.assign(e.target, v, env, e, e.value); return v
        if isinstance(e, ast.Starred): return self.ev(e.value, env)
        if isinstance(e, (ast.Yield, ast.Await)):
            v = self.ev(e.value, env) if e.value is not None else BOT
            ts = set(self.dep())
            if self.unord: ts.add(("U", self.unord[-1]))
            self.ret = j(self.ret, mk("iter", v, *ts)); return BOT
        if isinstance(e, ast.YieldFrom):
            v = self.ev(e.value, env); self.ret = j(self.ret, plus(mk("iter", elem(v)), tags(v, "U", "X", "G") | self.dep())); return BOT
        return jj([self.ev(c, env) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)])

    def texted(self, v):
        """taints of the text of a value"""
        ts = set(deep(v, "X", "G"))
        for h in deep(v, "H"): ts.add(("X", h[1]))
        x = v
        while x is not None:
            for u in tags(x, "U"):
                if not self_single(self, u): ts.add(("X", "the order of " + u[1]))
            x = x[1]
        return ts

    def binop(self, op, a, b):
        ts = tags(a, "X", "G", "H") | tags(b, "X", "G", "H"); ka, kb = kinds(a), kinds(b)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and ("set" in ka or "set" in kb):
            u = tags(a, "U") | tags(b, "U")
            return plus(mk("set", j(elem(a), elem(b)), min(u) if u else ("U", "a set")), ts)
        if isinstance(op, ast.Mod) and "str" in ka: return mk("str", None, *self.texted(b), *tags(a, "X", "G"))
        r = j((a[0], a[1]), (b[0], b[1]))
        keep = frozenset(t for t in r[0] if t[0] in ("kind",) + TAINT)
        return (keep, r[1])

    def name(self, e, env):
        n = e.id; F = self.F
        cl = F.clos.get((self.fid, n)) if n in F.captured.get(self.fid, ()) else None
        if n in env.v: return j(env.v[n][0], cl) if cl else env.v[n][0]
        o = self.outer(n)
        if o is not None:
            ch = F.children.get(o, {})
            if n in ch: return (frozenset([("fn", id(ch[n].node))]), None)
            return F.clos.get((o, n), BOT)
        return self.resolved(F.prog.resolve(self.f.module, n), n)

    def outer(self, n):
        p = self.f.parent
        while p is not None:
            if n in p.params or n in self.F.children.get(id(p.node), {}) or any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n for x in ast.walk(p.node)): return id(p.node)
            p = p.parent
        return None

    def resolved(self, r, n):
        F = self.F
        if r is None: return (frozenset([("x", n)]), None)
        if r[0] == "class": return (frozenset([("c", r[1].qual)]), None)
        if r[0] == "func": return (frozenset([("fn", id(r[1].node))]), None)
        if r[0] == "const":
            g = F.globs.get((r[2].name, n), BOT)
            if isinstance(r[1], ast.Call):
                q = F.prog.resolve_expr(r[1].func, r[2])
                if q and q[0] == "class": return j(g, (frozenset([("cls", q[1].qual)]), None))
                if q is None and isinstance(r[1].func, ast.Name) and r[1].func.id in ("set", "frozenset"): return j(g, mk("set", None, ("U", "the set " + n)))
                return g
            if isinstance(r[1], ast.Set): return j(g, mk("set", mk("str"), ("U", "the set " + n)))
            if isinstance(r[1], (ast.List, ast.Tuple)): return j(g, mk("list", mk("str")))
            if isinstance(r[1], ast.Dict): return j(g, mk("dict", BOT))
            if isinstance(r[1], ast.Constant): return j(g, self.ev(r[1], Env()))
            if isinstance(r[1], ast.Name): return self.resolved(F.prog.resolve(r[2], r[1].id), r[1].id)
            return g
        if r[0] == "module": return (frozenset([("x", "module:" + r[1].name)]), None)
        if r[0] == "ext": return (frozenset([("x", r[1])]), None)
        return BOT

    def attr(self, b, name, node):
        F = self.F; out = BOT
        for t in b[0]:
            if t[0] == "x":
                if t[1].startswith("module:"): out = j(out, self.resolved(F.prog.resolve(F.prog.modules[t[1][7:]], name), name))
                else: out = j(out, (frozenset([("x", t[1] + "." + name)]), None))
            elif t[0] == "c":
                m = F.prog.classes[t[1]].find(name)
                if m is not None: out = j(out, (frozenset([("fn", id(m.node))]), None))
            elif t[0] == "cls":
                ms = F.eff.methods(("cls", t[1]), name)
                if ms:
                    for m in ms:
                        if m.is_property: out = j(out, F.rets.get(id(m.node), BOT))
                        else: out = j(out, (frozenset([("bm", id(m.node))]), None))
                else:
                    v = F.field(t[1], name)
                    if F.prog.classes[t[1]].name == "Logger": v = plus(v, [("G", f"the logger's {name}")])
                    out = j(out, v)
        if not tags(b, "cls", "x", "c"):
            for c in F.attr_index.get(name, ()): out = j(out, F.fields.get((c, name), BOT))
        return plus(out, tags(b, "X", "G"))

    def comp(self, e, env):
        x = env.copy(); ts = set(); n = 0; npc = 0
        for g in e.generators:
            it, b = self.iteration(g.target, g.iter, x)
            ts |= tags(it, "X", "G")
            if tags(it, "U"): ts.add(min(tags(it, "U"))); self.unord.append(min(tags(it, "U"))[1]); n += 1
            d = tags(it, "X", "G")
            if d: self.pc.append(d); npc += 1
            b(x)
            for c in g.ifs:
                d = self.cond(self.ev(c, x)); ts |= d
                if d: self.pc.append(d); npc += 1
        if isinstance(e, ast.DictComp): v = j(self.ev(e.key, x), self.ev(e.value, x))
        else: v = self.ev(e.elt, x)
        for _ in range(n): self.unord.pop()
        for _ in range(npc): self.pc.pop()
        if isinstance(e, ast.SetComp): ts = {t for t in ts if t[0] != "U"} | {("U", f"a set ({self.at(e)})")}
        return mk({ast.ListComp: "list", ast.SetComp: "set", ast.GeneratorExp: "iter", ast.DictComp: "dict"}[type(e)], v, *ts)

    # ------------------------------------------------------------ calls
    def call(self, e, env):
        F = self.F; F.calls += 1; fn = e.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            m = self.f.cls.find_after(self.f.cls, fn.attr) if self.f.cls else None
            args, kw = self.args(e, env)
            return self.apply(m, args, kw, e, env, True) if m is not None else BOT
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, env); args, kw = self.args(e, env)
            return self.method(recv, fn.attr, args, kw, e, env)
        f = self.ev(fn, env); args, kw = self.args(e, env)
        return self.callv(f, args, kw, e, env)

    def args(self, e, env):
        args = []; kw = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                x = self.elements(v, a)
                if tags(v, "U"): x = plus(x, [("X", "the order of " + min(tags(v, "U"))[1])])
                args.append(("*", plus(x, tags(v, "X", "G"))))
            else: args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            kw[k.arg or "**"] = v if k.arg else elem(v)
        return args, kw

    def flatargs(self, args, kw): return [a[1] if isinstance(a[0], str) and a[0] == "*" else a for a in args] + list(kw.values())

    def callv(self, f, args, kw, e, env):
        out = BOT; hit = False
        for t in f[0]:
            if t[0] == "fn": out = j(out, self.apply(self.F.funcs[t[1]], args, kw, e, env, False)); hit = True
            elif t[0] == "bm": out = j(out, self.apply(self.F.funcs[t[1]], args, kw, e, env, True)); hit = True
            elif t[0] == "c": out = j(out, self.construct(t[1], args, kw, e, env)); hit = True
            elif t[0] == "x": out = j(out, self.external(t[1], args, kw, e, env)); hit = True
            elif t[0] == "cls":
                for m in self.F.eff.methods(("cls", t[1]), "__call__"): out = j(out, self.apply(m, args, kw, e, env, True)); hit = True
        if not hit: self.foreign(args, kw, e, env, ast.unparse(e.func))
        return plus(out, tags(f, "X", "G"))

    def target(self, e, kind, what): self.F.targets.setdefault(id(e), set()).add((kind, what))

    def foreign(self, args, kw, e, env, what):
        """code outside the package runs: with these values, at this point"""
        if what.split(".")[-1].startswith("log") and any(self.F.prog.classes[c].name == "Logger" for v in self.flatargs(args, kw) for c in classes(v)): return
        self.target(e, "u", what)
        for v in self.flatargs(args, kw):
            x = deep(v, "X", "H") | self.listy_u(v)
            if x: self.find("X", False, e, f"{what}() is called with a value that depends on {min(x)[1]}")
            g = deep(v, "G")
            if g: self.find("G", False, e, f"{what}() is called with a value that depends on {min(g)[1]}")
        self.happens(e, env, what)

    def happens(self, e, env, what):
        d = self.dep()
        for t in sorted(d):
            if t[0] in ("X", "G"): self.find(t[0], False, e, f"whether {what}() is called depends on {t[1]}")
        if self.unord: self.find("X", False, e, f"{what}() is called in the order of {self.unord[-1]}")

    def construct(self, cq, args, kw, e, env):
        F = self.F; c = F.prog.classes[cq]
        if c.name == "OrderedSet":
            a = self.flatargs(args, kw)
            return mk("list", elem(a[0]) if a else BOT, *(tags(a[0], "U", "X", "G") if a else ()))
        init = c.find("__init__")
        if init is not None: self.apply(init, args, kw, e, env, True, fresh=True)
        elif any(k.dataclass for k in c.mro()):
            fs = [f[0] for f in c.fields()]
            for i, a in enumerate(args):
                if isinstance(a[0], str) and a[0] == "*":
                    for n in fs[i:]: F.store(cq, n, a[1])
                    break
                if i < len(fs): self.init_field(cq, fs[i], a, e)
            for k, v in kw.items():
                if k != "**": self.init_field(cq, k, v, e)
        return (frozenset([("cls", cq)]), None)

    def init_field(self, cq, n, v, e):
        x = deep(v, "X")
        if x: self.find("X", False, e, f"the value stored in {n} depends on {min(x)[1]}")
        self.F.store(cq, n, plus(v, self.dep()))

    def observer(self, m):
        """an operation whose implementations in the package change nothing (or only the log)"""
        ms = [m]
        if m.cls is not None:
            ms = [x for x in self.F.eff.methods(("cls", m.cls.qual), m.name)]
        for x in ms:
            if any(not self.log_effect(k, own) for k, (v, s, h, own) in self.F.eff.sum[id(x.node)].effects.items()): return False
        return True

    def log_effect(self, k, own):
        if own is not None and self.F.prog.classes[own[0]].name == "Logger": return True
        l = k[0]
        while l[0] in ("f", "o"):
            t = self.F.eff.type_of(l)
            if t and t[0] == "cls" and self.F.prog.classes[t[1]].name == "Logger": return True
            l = l[1]
        t = self.F.eff.type_of(l)
        return bool(t and t[0] == "cls" and self.F.prog.classes[t[1]].name == "Logger")

    def user(self, f, seen=None):
        """does f run code from outside (predicates, processors, …)?  Observers do not count."""
        cache = self.F.__dict__.setdefault("_user", {})
        k = id(f.node)
        if k in cache: return cache[k]
        seen = seen if seen is not None else set()
        if k in seen: return False
        seen.add(k)
        S = self.F.eff.sum[k]
        r = False
        if f.stub(): r = not self.observer(f)
        elif S.user:
            inner = [self.F.funcs[x] for x in self.F.eff.calls.get(k, ()) if x in self.F.funcs]
            r = self.direct_foreign(f) or any(self.user(x, seen) for x in inner)
        if len(seen) == 1 or r: cache[k] = r
        return r

    def direct_foreign(self, f):
        return id(f.node) in self.F.__dict__.setdefault("_foreign", set())

    def apply(self, m, args, kw, e, env, bound, fresh=False):
        F = self.F; fid = id(m.node)
        self.target(e, "f", fid)
        params = list(m.params)
        if bound and params and not m.static and m.cls is not None and m.parent is None and not isinstance(m.node, ast.Lambda): params.pop(0)
        exprs = {}
        for i, a in enumerate(args):
            if isinstance(a[0], str) and a[0] == "*":
                for n in params[i:]: F.up(F.params, (fid, n), a[1])
                if m.vararg: F.up(F.params, (fid, m.vararg), a[1])
                break
            if i < len(params):
                F.up(F.params, (fid, params[i]), a)
                if i < len(e.args) if isinstance(e, ast.Call) else False: exprs[params[i]] = e.args[i]
            elif m.vararg: F.up(F.params, (fid, m.vararg), a)
        for k, v in kw.items():
            if k == "**":
                for n in params: F.up(F.params, (fid, n), v)
            elif k in m.params or k in m.kwonly:
                F.up(F.params, (fid, k), v)
                for x in e.keywords:
                    if x.arg == k: exprs[k] = x.value
            elif m.kwarg: F.up(F.params, (fid, m.kwarg), v)
        d = self.dep()
        # dependence that holds at every call is carried into the function
        o = F.seenpc.get(fid); F.seenpc[fid] = d if o is None else frozenset(t for t in o if t in d)
        rest = d - (F.callpc[fid] or E) if F.callpc[fid] is not None else E
        logcall = m.name.startswith("log") or m.cls is not None and m.cls.name == "Logger"
        if (rest or self.unord) and not logcall: self.effects_under(m, rest, e, env, exprs, fresh)
        for p, x in exprs.items():
            o = F.outs.get((fid, p))
            if o is not None and isinstance(x, (ast.Name, ast.Attribute)): self.grow(x, (frozenset(t for t in o[0] if t[0] in TAINT), (deep(elem(o), *TAINT), None) if o[1] else None), env, e)
        r = F.rets.get(fid, BOT)
        if m.cls is not None and m.cls.name == "Logger": r = plus(r, [("G", f"the logger's {m.name}()")])
        if m.stub() and m.cls is not None:
            for x in F.eff.methods(("cls", m.cls.qual), m.name):
                if x is not m: r = j(r, F.rets.get(id(x.node), BOT))
        return r

    def effects_under(self, m, d, e, env, exprs, fresh):
        """a call whose effects happen only under a condition, or in an undetermined order"""
        if self.user(m):
            for t in sorted(d):
                if t[0] in ("X", "G"): self.find(t[0], False, e, f"whether {m.qual.split('.', 1)[-1]}() is called depends on {t[1]}")
            if self.unord: self.find("X", False, e, f"{m.qual.split('.', 1)[-1]}() is called in the order of {self.unord[-1]}")
            return
        for (l, key, site), (v, sure, how, own) in self.F.eff.sum[id(m.node)].effects.items():
            if self.log_effect((l, key, site), own): continue
            r = root(l)
            if r[0] == "p" and r[1] == id(m.node):
                if r[2] in exprs: x = exprs[r[2]]
                elif m.params and r[2] == m.params[0]:
                    if fresh: continue
                    x = e.func.value if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else None
                else: x = None
                if x is not None:
                    b = x
                    while isinstance(b, (ast.Subscript, ast.Attribute)): b = b.value
                    if isinstance(b, ast.Name) and b.id in env.v and self.unord and env.v[b.id][1] >= len(self.unord) and not d: continue
                    if isinstance(x, ast.Name) and kinds(self.ev(x, env)) == {"set"} and not d: continue
                if not isinstance(x, (ast.Name, ast.Attribute, type(None))): continue        # a new object
            if d and own is not None and self.only_log_field(own):
                continue
            for t in sorted(d):
                if t[0] in ("X", "G"): self.find(t[0], False if sure else None, e, f"whether {m.qual.split('.', 1)[-1]}() makes its changes depends on {t[1]}")
            if self.unord: self.find("X", False if sure else None, e, f"{m.qual.split('.', 1)[-1]}() makes its changes in the order of {self.unord[-1]}")
            return

    def only_log_field(self, own):
        """a field that is only written under the same kind of condition"""
        v = self.F.field(own[0], own[1])
        return bool(tags(v, "G"))

    def fits(self, m, args, kw): return True

    def method(self, recv, name, args, kw, e, env):
        F = self.F; out = BOT; hit = False; rt = tags(recv, "X", "G")
        A = self.flatargs(args, kw); ks = kinds(recv)
        for t in recv[0]:
            if t[0] == "x":
                hit = True
                if t[1].startswith("module:"): out = j(out, self.callv(self.resolved(F.prog.resolve(F.prog.modules[t[1][7:]], name), name), args, kw, e, env))
                else: out = j(out, self.external(t[1] + "." + name, args, kw, e, env))
            elif t[0] == "c":
                m = F.prog.classes[t[1]].find(name)
                if m is not None:
                    hit = True
                    if m.static or m.clsmethod: out = j(out, self.apply(m, args, kw, e, env, m.clsmethod))
                    else: out = j(out, self.apply(m, args[1:], kw, e, env, True))
            elif t[0] == "cls":
                c = F.prog.classes[t[1]]
                ms = F.eff.methods(("cls", t[1]), name)
                impl = [m for m in ms if not m.stub()] or ms
                for m in impl: out = j(out, self.apply(m, args, kw, e, env, True)); hit = True
                if any(m.stub() for m in ms): self.stub_call(ms[0], name, args, kw, e, env)
                if not ms:
                    v = F.field(t[1], name)
                    if tags(v, "fn", "bm", "c"): out = j(out, self.callv(v, args, kw, e, env))
                    elif c.name == "OrderedSet" or name in CONT_M and c.ext_bases(): continue
                    F.__dict__.setdefault("_foreign", set()).add(self.fid)
                    self.foreign(args, kw, e, env, name); hit = True
        if hit and not ks: return plus(out, rt)
        if ks & {"list", "set", "dict", "tuple", "iter"} or not ks and name in CONT_M: out = j(out, self.container(recv, name, args, kw, e, env, A)); hit = True
        if "str" in ks or not ks and name in STR_M: out = j(out, self.strmethod(recv, name, A)); hit = True
        if not hit:
            ms = [m for m in F.by_name.get(name, ()) if not ks]
            if ms and not ks:
                for m in [x for x in ms if not x.stub()] or ms: out = j(out, self.apply(m, args, kw, e, env, True))
                if any(m.stub() for m in ms): self.stub_call(ms[0], name, args, kw, e, env)
                return plus(out, rt)
            # an object from outside the package
            self.target(e, "m", name)
            if name in SINK_METHODS:
                for v in A:
                    x = deep(v, "X", "H") | self.listy_u(v)
                    if x: self.find("X", False, e, f"{name}() is called with a value that depends on {min(x)[1]}")
                    g = deep(v, "G")
                    if g: self.find("G", False, e, f"{name}() is called with a value that depends on {min(g)[1]}")
                self.happens(e, env, name)
            out = j(out, mk("ext", jj([elem(recv)]), *[t for v in A for t in deep(v, "X", "G")]))
        return plus(out, rt)

    def stub_call(self, m, name, args, kw, e, env):
        if name.startswith("log") or self.observer(m): return
        F = self.F; F.__dict__.setdefault("_foreign", set()).add(self.fid)
        self.foreign(args, kw, e, env, name)

    def container(self, recv, name, args, kw, e, env, A):
        ks = kinds(recv); u = tags(recv, "U"); base = e.func.value
        if name in ("copy",): return recv
        if name == "keys" : return mk("set" if False else "iter", elem(recv), *tags(recv, "U", "X", "G"))
        if name in ("values", "items"): return mk("iter", mk("tuple", elem(recv)) if name == "items" else elem(recv), *tags(recv, "U", "X", "G"))
        if name in ("get", "setdefault"):
            if name == "setdefault":
                x = set()
                if self.inner(base, env): x.add(("U", self.unord[-1]))
                self.grow(base, mk("dict", jj(A), *x), env, e)
            return plus(jj([elem(recv)] + A[1:]), tags(A[0], "X", "G") if A else E)
        if name in ("append", "appendleft", "insert", "extend", "extendleft", "add", "update"):
            src = A[-1] if A else BOT; ts = set()
            whole = name in ("extend", "extendleft", "update")
            el = self.elements(src, e) if whole else src
            if name == "update" and kw: el = j(el, jj(kw.values()))
            if whole: ts |= tags(src, "U", "X", "G")
            if name == "insert" and A: ts |= tags(A[0], "X", "G")
            setlike = ks == {"set"} or name == "add"
            if setlike and "list" not in ks: ts = {t for t in ts if t[0] != "U"}
            elif self.inner(base, env): ts.add(("U", self.unord[-1]))
            if name == "add" and "list" in ks and self.inner(base, env): ts.add(("U", self.unord[-1]))        # an OrderedSet
            self.grow(base, (frozenset(ts), el), env, e)
            return BOT
        if name in ("pop", "popitem", "popleft"):
            r = plus(elem(recv), tags(recv, "X", "G"))
            if u and not (ks == {"dict"} and name == "pop") and not self.single(base): r = plus(r, [("X", "the order of " + min(u)[1])])
            return r
        if name in ("index",):
            return mk("num", None, *([("X", "the order of " + min(u)[1])] if u else []))
        if name == "sort":
            k = kw.get("key")
            o = self.ordered_by(recv, e, env, k)
            if isinstance(base, ast.Name) and base.id in env.v:
                v, lv = env.v[base.id]
                env.v[base.id] = ((frozenset(t for t in v[0] if t[0] != "U") | o, v[1]), lv)
            elif o: self.grow(base, (o, None), env, e)
            return BOT
        if name in SETISH: return mk("set", jj([elem(recv)] + [elem(a) for a in A]), ("U", "a set"))
        if name in ("most_common",): return plus(recv, E)
        if name in ("remove", "discard", "clear", "count", "issubset", "issuperset", "isdisjoint", "intersection_update", "difference_update", "reverse"):
            if self.dep(): self.grow(base, BOT, env, e)
            return (tags(recv, "X", "G"), None)
        return BOT

    def strmethod(self, recv, name, A):
        ts = set(tags(recv, "X", "G"))
        for a in A:
            ts |= set(deep(a, "X", "G"))
            if name in ("join", "format"):
                x = self.texted(a); ts |= x
        return mk("list" if name in ("split", "rsplit", "splitlines") else "str", mk("str") if name in ("split", "rsplit", "splitlines") else None, *ts)

    def ordered_by(self, v, e, env, key):
        """what a sorted collection's order still depends on"""
        x = self.elements(v, e)
        ts = {t for t in deep(x, "H")}
        out = set()
        kexpr = next((k.value for k in e.keywords if k.arg == "key"), None) if isinstance(e, ast.Call) else None
        if kexpr is None:
            for h in ts: out.add(("U", h[1]))
            return frozenset(out)
        kv = BOT
        for t in key[0] if key else ():
            if t[0] == "fn": 
                f = self.F.funcs[t[1]]
                if f.params: self.F.up(self.F.params, (t[1], f.params[0]), x)
                kv = j(kv, self.F.rets.get(t[1], BOT))
            if t[0] == "x" and t[1] in ("hash", "id"): kv = j(kv, (frozenset([("H", t[1] + "()")]), None))
        for h in deep(kv, "H", "X"): out.add(("U", h[1]))
        for h in self.listy_u(kv): out.add(h)
        if tags(v, "U") and not self.total(kexpr): out |= tags(v, "U")
        return frozenset(out)

    def total(self, k):
        """the key tells all elements apart"""
        if isinstance(k, ast.Name) and k.id in ("str", "repr"): return True
        if isinstance(k, ast.Lambda) and len(k.args.args) == 1:
            p = k.args.args[0].arg; b = k.body
            parts = b.elts if isinstance(b, ast.Tuple) else [b]
            for x in parts:
                if isinstance(x, ast.Name) and x.id == p: return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("str", "repr") and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and x.args[0].id == p: return True
        return False

    def external(self, name, args, kw, e, env):
        self.target(e, "x", name)
        A = self.flatargs(args, kw); a0 = A[0] if A else BOT; short = name.split(".")[-1]; F = self.F
        pt = frozenset(t for v in A for t in tags(v, "X", "G"))
        for v in A:                                            # functions given to builtins
            for t in v[0]:
                if t[0] in ("fn", "bm"):
                    f = F.funcs[t[1]]
                    src = next((w for w in A if w is not v and w[1] is not None), BOT)
                    ps = f.params[1:] if t[0] == "bm" else f.params
                    if ps: F.up(F.params, (t[1], ps[0]), elem(src))
        if any(name.startswith(c) if c.endswith(".") else name == c for c in CLOCK) and name not in CLOCK_OK:
            if name == "random.shuffle" and isinstance(e.args[0], (ast.Name, ast.Attribute)): self.grow(e.args[0], (frozenset([("U", "random.shuffle()")]), None), env, e)
            if name.startswith("random.Random"): return mk("ext")
            r = j(mk("num"), elem(a0)) if name.startswith("random.") else mk("ext")
            return plus(r, [("X", name + "()")])
        if name in LISTING: return mk("list", mk("str"), ("U", name + "()"))
        if name in ("hash", "id"): return plus(mk("num"), {("H", name + "()")} | pt)
        if name in ("set", "frozenset"): return plus(mk("set", self.elements(a0, e), ("U", f"a set ({self.at(e)})")), tags(a0, "X", "G"))
        if name == "sorted":
            return plus(mk("list", self.elements(a0, e)), self.ordered_by(a0, e, env, kw.get("key")) | tags(a0, "X", "G"))
        if name in ("min", "max") or name in ("builtins.min", "builtins.max"):
            if len(args) > 1: return j(jj(A), (pt, None))
            r = plus(j(self.elements(a0, e), kw.get("default", BOT)), tags(a0, "X", "G"))
            o = self.ordered_by(a0, e, env, kw.get("key"))
            if o: r = plus(r, [("X", "the order of " + min(o)[1])])
            return r
        if name in ("len", "any", "all", "sum", "bool", "isinstance", "callable", "hasattr", "abs", "round", "int", "float", "ord", "math.ceil"):
            x = deep(a0, "X", "G") if name in ("any", "all", "sum") else tags(a0, "X", "G")
            if name in ("any", "all"): x |= frozenset()
            h = tags(a0, "H")
            return mk("num", None, *(x | (frozenset(("X", o) for _, o in h) if name in ("int", "abs", "round") else E)))
        if name in ("str", "repr", "format", "ascii"): return mk("str", None, *self.texted(a0))
        if name == "next":
            r = plus(self.elements(a0, e), tags(a0, "X", "G"))
            if tags(a0, "U") and not self.single(e.args[0]): r = plus(r, [("X", "the order of " + min(tags(a0, "U"))[1])])
            for c in classes(a0):
                for m in F.eff.methods(("cls", c), "__next__"): r = j(r, F.rets.get(id(m.node), BOT))
            return j(r, A[1]) if len(A) > 1 else r
        if name in ("enumerate", "zip") or short in ("zip_longest",):
            el = jj([self.elements(v, e) for v in A]); u = [t for v in A for t in tags(v, "U")]
            if u: el = plus(el, [("X", "the order of " + min(u)[1])])
            return plus(mk("iter", mk("tuple", el), *u), pt)
        if name == "map":
            r = BOT
            for t in a0[0]:
                if t[0] in ("fn", "bm"): r = j(r, F.rets.get(t[1], BOT))
            u = [t for v in A[1:] for t in tags(v, "U")]
            return plus(mk("iter", r if r != BOT else jj([self.elements(v, e) for v in A[1:]]), *u), pt)
        if name == "filter": return plus(mk("iter", self.elements(A[1], e) if len(A) > 1 else BOT), tags(A[1], "U", "X", "G") if len(A) > 1 else E)
        if short == "reduce":
            u = tags(A[1], "U") if len(A) > 1 else E
            return plus(self.elements(A[1], e) if len(A) > 1 else BOT, pt | (frozenset([("X", "the order of " + min(u)[1])]) if u else E))
        if short == "fromkeys": return plus(mk("dict", self.elements(a0, e)), tags(a0, "U", "X", "G"))
        if name == "dict":
            return plus(mk("dict", j(self.elements(a0, e), jj(kw.values()))), tags(a0, "U", "X", "G"))
        if short in SEQ_EXT:
            u = [t for v in A for t in tags(v, "U")]
            kind = "tuple" if short == "tuple" else "dict" if short in ("OrderedDict", "Counter", "defaultdict") else "iter" if short in ("iter", "reversed", "islice") else "list"
            r = mk(kind, jj([self.elements(v, e) for v in A]), *u)
            if short in ("islice",) and u: r = plus(r, [("X", "the order of " + min(u)[1])])
            return plus(r, pt)
        if short in ("copy", "deepcopy", "cast"): return A[-1] if short == "cast" and A else a0
        if short == "getattr" and len(e.args) > 1 and isinstance(e.args[1], ast.Constant): return j(self.attr(a0, str(e.args[1].value), e), A[2] if len(A) > 2 else BOT)
        if short == "setattr" and len(e.args) > 2 and isinstance(e.args[1], ast.Constant): self.setfield(a0, str(e.args[1].value), plus(A[2], self.dep()), e); return BOT
        if short == "range": return mk("iter", mk("num", None, *pt), *pt)
        if short == "type": return (frozenset(("c", c) for c in classes(a0)), None)
        if short in ("print",): return BOT
        if name == "super": return BOT
        if any(name.startswith(n) if n.endswith(".") else name == n for n in NAMES_ONLY): return mk("ext", None, *tags((pt, None), "G"))
        if name.startswith("requests.") or short in SINK_METHODS:
            for v in A:
                x = deep(v, "X", "H") | self.listy_u(v)
                if x: self.find("X", False, e, f"{name}() is called with a value that depends on {min(x)[1]}")
                g = deep(v, "G")
                if g: self.find("G", False, e, f"{name}() is called with a value that depends on {min(g)[1]}")
            self.happens(e, env, name)
        if short in ("Exception", "ValueError", "TypeError", "KeyError", "RuntimeError", "IndexError") or short.endswith("Error"): return mk("ext", None, *[t for v in A for t in self.texted_x(v)])
        u = [t for v in A for t in self.listy_u(v)]
        return plus(mk("ext", jj([elem(v) for v in A])), pt | frozenset(u))

    def texted_x(self, v): return [t for t in self.texted(v)]


def self_single(run, u): return False


def own_nodes(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop(); yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): todo += list(ast.iter_child_nodes(n))


def flow_of(prog, roots):
    if not hasattr(prog, "_flow"): prog._flow = Flow(prog, roots)
    return prog._flow
