"""Expression, statement, call and loop semantics of the abstract interpreter."""
import ast
from .absint import *
from .absint import Engine as _Engine
from .program import Func, Class, Module


class Interp(_Engine):

    # ------------------------------------------------------------ helpers
    def exc(self, cls, msg=None, origin="explicit", node=None):
        return ("exc", cls, msg, origin, getattr(node, "lineno", 0))

    def new_obj(self, st, kind, segs=(), cls=None, base=None):
        r = ("ref", self.fresh()); st.heap[r] = Obj(kind, cls, base, segs); return r

    def obj(self, st, v):
        """heap object for a value (creating the overlay object of an opaque container)"""
        if v[0] == "ref": return st.heap.get(v)
        return st.heap.get(v)

    def ensure(self, st, v, kind):
        o = st.heap.get(v)
        if o is None:
            o = Obj(kind, None, v, (("base", v),)); st.heap[v] = o
        return o

    def unk(self, st, why):
        st.mark(why); return T("unk", self.fresh(), why)

    # ------------------------------------------------------------ entry
    def entry_state(self): return State()

    def run(self, func, args, st=None, self_val=None):
        """interpret func; -> list of (state, outcome) with outcome ('return', v) or ('raise', exc)"""
        st = st or State()
        out = []
        for s, v in self.inline(st, func, args, {}, None, None):
            out.append((s, ("raise", v) if is_exc(v) else ("return", v)))
            if len(out) > self.max_paths: raise TooComplex("too many paths")
        return out

    def param(self, name, typ=None):
        v = T("param", name)
        if typ: self.types[v] = typ
        return v

    def self_param(self, cname):
        c = self.prog.cls(cname)
        return self.param("self", ("cls", c.qual))

    def run_method(self, cname, mname, args=None, st=None):
        f = self.prog.method(cname, mname)
        st = st or State()
        slf = self.self_param(cname)
        vals = [slf]
        args = args or {}
        for p in f.params[1:]:
            t = self.prog.parse_type(f.ann.get(p), f.module)
            # what an object is compared with is of its own class
            if t is None and len(f.params) == 2 and (mname in ("__eq__", "__lt__", "equals") or p.startswith("other")): t = self.typeof(slf, st)
            vals.append(args[p] if p in args else self.param(p, t))
        return self.run(f, vals, st)

    def run_function(self, f, args=None, st=None):
        args = args or {}
        vals = [args[p] if p in args else self.param(p, self.prog.parse_type(f.ann.get(p), f.module)) for p in f.params]
        if f.vararg: vals.append(("varsym", self.param(f.vararg, ("list", None))))
        return self.run(f, vals, st or State())

    # ------------------------------------------------------------ calls
    def inline(self, st, func, args, kwargs, node, lexparent, raw_bind=None):
        """yield (state, value|exc)"""
        self.tick()
        self.functions.add(func.qual)
        fid = self.fresh()
        self.frame_parent[fid] = lexparent; self.frame_mod[fid] = func.module; self.frame_func[fid] = func
        s = st.fork()
        caller = s.fid; stack = s.stack
        frame = {}
        params = list(func.params)
        pos = list(args)
        if raw_bind is not None: frame.update(raw_bind)
        else:
            if any(a[0] == "starunk" for a in pos):
                pos = [a for a in pos if a[0] != "starunk"]; s.mark("star-args in call of " + func.name)
            for p, v in zip(params, pos): frame[p] = v
            extra = pos[len(params):]
            if func.vararg: frame[func.vararg] = extra[0][1] if len(extra) == 1 and extra[0][0] == "varsym" else ("tup",) + tuple(extra)
            elif extra: 
                yield s, self.exc("TypeError", K("too many arguments"), "implicit", node); return
            kw = {}
            for k, v in kwargs.items():
                if k in params or k in func.kwonly: frame[k] = v
                else: kw[k] = v
            if func.kwarg: frame[func.kwarg] = self.new_obj(s, "dict", [("put", K(k), v) for k, v in kw.items()])
            elif kw:
                yield s, self.exc("TypeError", K("unexpected keyword"), "implicit", node); return
        s.frames[fid] = frame; s.fid = fid; s.stack = stack + (func.qual,)
        todo = [(s, p) for p in params + func.kwonly if p not in frame]
        states = [s]
        for p in params + func.kwonly:
            if p in frame: continue
            d = func.defaults.get(p)
            nxt = []
            for s1 in states:
                if d is None:
                    nxt.append((s1, self.exc("TypeError", K("missing argument " + p), "implicit", node)))
                else:
                    save = s1.fid
                    # defaults are evaluated in the defining scope, once
                    for s2, v in self.ev(s1, d):
                        if not is_exc(v):
                            if v[0] == "ref" and s2.heap[v].kind in ("list", "dict", "set") and not s2.heap[v].segs:
                                pass
                            s2.set(p, v, fid)
                        nxt.append((s2, v if is_exc(v) else None))
            states = []
            for s1, e in nxt:
                if e is not None:
                    s1.fid = caller; s1.stack = stack; yield s1, e
                else: states.append(s1)
        for t in params + func.kwonly:
            a = func.ann.get(t)
            for s1 in states:
                v = s1.frames[fid].get(t)
                if a is not None and v is not None and is_t(v) and v not in self.types and self.typeof(v, s1) is None:
                    ty = self.prog.parse_type(a, func.module)
                    if ty: self.types[v] = ty
        for s1 in states:
            ybuf = None
            if func.is_gen:
                ybuf = self.new_obj(s1, "list"); s1.set("$yield", ybuf, fid)
            for s2, ctl in self.block(s1, func.body):
                if ybuf is not None and not (ctl and ctl[0] == "raise"): v = ybuf
                elif ctl is None: v = NONE
                elif ctl[0] == "return": v = ctl[1]
                elif ctl[0] == "raise": v = ctl[1]
                else: v = self.unk(s2, "stray " + ctl[0])
                s2.fid = caller; s2.stack = stack
                if fid not in self.captured: s2.frames.pop(fid, None)
                if is_t(v, "attr") and v not in self.types and func.returns is not None and self.typeof(v, s2) in (("list", None), ("dict", None, None), ("set", None)):
                    ty = self.prog.parse_type(func.returns, func.module)
                    if ty and ty[0] == self.typeof(v, s2)[0]: self.types[v] = ty
                yield s2, v

    def opaque_call(self, st, name, recv, args, kwargs, node, ret=None, pure=False, fval=None):
        """record a call event; yield result (and an exception when calls may raise)"""
        s = st if pure else st.fork()
        fr = self.freeze(s, recv) if recv is not None and recv[0] == "tup" else recv
        if recv is not None: fr = self.freeze(s, recv)
        fargs = tuple(self.freeze(s, a) for a in args)
        fkw = tuple(sorted((k, self.freeze(s, v)) for k, v in kwargs.items()))
        if pure:
            v = T("call", name, fr, fargs, fkw, 0)
            if ret and v not in self.types: self.types[v] = ret
            yield s, v; return
        key = (name, fr, fargs, fkw)
        n = s.counts.get(key, 0); s.counts[key] = n + 1
        v = T("call", name, fr, fargs, fkw, (n,) + tuple(T("idx", L) for L in s.lstack))
        if ret and v not in self.types: self.types[v] = ret
        d = dict(name=name, recv=fr, args=fargs, kwargs=dict(fkw), result=v, node=node, func=self.frame_func.get(s.fid), raw=tuple(args), fval=fval, rawrecv=recv)
        d["facts"] = dict(s.facts); d["loops"] = dict(s.loops); d["stack"] = s.stack
        if (self.calls_raise or s.raising) :
            e = s.fork(); e.trace = e.trace + (Event("call", {**d, "raised": True}),)
            yield e, self.exc("?", None, "call:" + name, node)
        s.trace = s.trace + (Event("call", d),)
        if self.on_call: self.on_call(self, s, d)
        yield s, v

    def call(self, st, f, args, kwargs, node):
        """yield (state, value)"""
        self.tick()
        h = f[0]
        if h == "fn":
            func, lex, recv = self.fns[f[1]]
            if func.qual in st.stack and st.stack.count(func.qual) > (3 if isinstance(func.node, ast.Lambda) else 0) or len(st.stack) > self.inline_depth:
                yield from self.opaque_call(st, func.name, None, args, kwargs, node, self.prog.parse_type(func.returns, func.module)); return
            if func.qual in self.opaque or func.name in self.opaque:
                yield from self.opaque_call(st, func.name, None, args, kwargs, node, self.prog.parse_type(func.returns, func.module)); return
            yield from self.inline(st, func, args, kwargs, node, lex); return
        if h == "bound":
            recv, func = f[1], f[2]
            key = (func.cls.name + "." + func.name) if func.cls else func.name
            dyn = None
            rec = func.qual in st.stack
            if func.name in self.opaque or key in self.opaque or rec or func.abstract or func.stub() and not func.name == "__init__" or len(st.stack) > self.inline_depth:
                yield from self.opaque_call(st, func.name, recv, args, kwargs, node, self.prog.parse_type(func.returns, func.module)); return
            a = list(args) if func.static else [recv] + list(args)
            yield from self.inline(st, func, a, kwargs, node, None); return
        if h == "cls":
            yield from self.construct(st, f[1], args, kwargs, node); return
        if h == "bi":
            yield from self.builtin(st, f[1], args, kwargs, node); return
        if h == "bm":
            yield from self.bmethod(st, f[1], f[2], args, kwargs, node); return
        if h == "ext":
            yield from self.ext_call(st, f[1], args, kwargs, node); return
        if h == "partial":
            yield from self.call(st, f[1], list(f[2]) + list(args), {**dict(f[3]), **kwargs}, node); return
        # calling an opaque value: its last attribute name names the call
        if is_t(f, "attr"):
            yield from self.opaque_call(st, f[3], f[2], args, kwargs, node, fval=f); return
        if is_t(f) and f[1] in ("lookup",):
            pass
        yield from self.opaque_call(st, "()", f, args, kwargs, node, fval=f)

    def construct(self, st, cq, args, kwargs, node):
        c = self.prog.classes.get(cq)
        if c is None:
            yield st, T("new", cq, *[("f", str(i), self.freeze(st, a)) for i, a in enumerate(args)]); return
        if c.name == "OrderedSet":
            s = st.fork()
            if args: 
                yield from self.to_coll(s, "oset", args[0], node)
            else: yield s, self.new_obj(s, "oset")
            return
        if any(b.split(".")[-1] in ("Exception", "BaseException", "ValueError", "RuntimeError", "KeyError", "TypeError", "LookupError", "SyntaxError") for b in c.ext_bases()):
            yield st, T("new", cq, *[("f", str(i), self.freeze(st, a)) for i, a in enumerate(args)]); return
        s = st.fork()
        ref = self.new_obj(s, "inst", cls=cq)
        init = c.find("__init__")
        s.event("new", dict(cls=cq, ref=ref, args=tuple(self.freeze(s, a) for a in args), kwargs={k: self.freeze(s, v) for k, v in kwargs.items()}, node=node, func=self.frame_func.get(s.fid), facts=dict(s.facts), name=c.name))
        if init is None and c.dataclass:
            fl = c.fields(); vals = dict(zip([x[0] for x in fl], args))
            if len(args) > len(fl): yield s, self.exc("TypeError", K("too many arguments"), "implicit", node); return
            for k, v in kwargs.items():
                vals[k] = v
            states = [s]
            for name, default, oc in fl:
                if name in vals:
                    for s1 in states: s1.fields[(ref, name)] = vals[name]
                elif default is not None:
                    d = default
                    if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("field"):
                        d = next((k.value for k in d.keywords if k.arg == "default"), None)
                        fac = next((k.value for k in default.keywords if k.arg == "default_factory"), None)
                        if fac is not None: d = ast.Call(func=fac, args=[], keywords=[])
                    nx = []
                    for s1 in states:
                        fid0 = s1.fid; f2 = self.fresh(); self.frame_mod[f2] = oc.module; self.frame_parent[f2] = None; s1.frames[f2] = {}; s1.fid = f2
                        for s2, v in self.ev(s1, d):
                            s2.fid = fid0; s2.frames.pop(f2, None); s2.fields[(ref, name)] = v; nx.append(s2)
                    states = nx
                else:
                    yield s, self.exc("TypeError", K("missing argument " + name), "implicit", node); return
            for s1 in states: yield s1, ref
            return
        if init is None:
            yield s, ref; return
        if init.qual in s.stack or len(s.stack) > self.inline_depth:
            yield s, ref; return
        for s1, v in self.inline(s, init, [ref] + list(args), kwargs, node, None):
            yield s1, (v if is_exc(v) else ref)

    # ------------------------------------------------------------ attribute access
    def getattr_(self, st, base, name, node=None):
        """yield (state, value)"""
        h = base[0]
        if h == "ref" and st.heap[base].kind == "inst" or h == "t":
            if (base, name) in st.fields: yield st, st.fields[(base, name)]; return
        if h == "mod":
            r = self.prog.resolve(base[1], name)
            if r is None and base[1].name + "." + name in self.prog.modules: yield st, ("mod", self.prog.modules[base[1].name + "." + name]); return
            yield from self.resolved(st, r, name, base[1]); return
        if h == "ext": yield st, ("ext", base[1] + "." + name); return
        if h == "super":
            c, recv = base[1], base[2]
            t = self.typeof(recv, st)
            dyn = self.prog.classes.get(t[1]) if t and t[0] == "cls" else c
            m = dyn.find_after(c, name) if c in dyn.mro() else c.find_after(c, name)
            if m: yield st, ("bound", recv, m); return
            yield st, ("bm", T("superobj", recv), name); return
        if h == "cls":
            c = self.prog.classes.get(base[1])
            if c:
                m = c.find(name)
                if m:
                    fnid = self.fresh(); self.fns[fnid] = (m, None, None)
                    if m.clsmethod: yield st, ("bound", base, m)
                    else: yield st, ("fn", fnid)
                    return
                for k in c.mro():
                    if name in k.attrs:
                        yield from self.ev_in_module(st, k.attrs[name], k.module); return
            if name == "fromkeys" and base[1] == "dict": yield st, ("bm", base, name); return
            yield st, T("attr", base, name); return
        if h == "ref" and st.heap[base].kind != "inst":
            yield st, ("bm", base, name); return
        if h in ("k", "tup", "bm"): yield st, ("bm", base, name); return
        # instance of a known class
        t = self.typeof(base, st)
        if is_t(base, "new"):
            for f in base[3:]:
                if f[0] == "f" and f[1] == name: yield st, f[2]; return
        if t and t[0] == "cls":
            c = self.prog.classes.get(t[1])
            if c:
                m = c.find(name)
                if m:
                    if m.is_property:
                        if m.qual in st.stack: yield from self.opaque_call(st, name, base, [], {}, node, pure=True); return
                        yield from self.inline(st, m, [base], {}, node, None); return
                    if m.clsmethod: yield st, ("bound", ("cls", c.qual), m); return
                    yield st, ("bound", base, m); return
                if h == "ref":
                    b = st.heap[base].base
                    if b is not None:
                        yield from self.getattr_(st, b, name, node); return
                for k in c.mro():
                    if name in k.attrs and not k.dataclass:
                        yield from self.ev_in_module(st, k.attrs[name], k.module); return
                if h == "t":
                    ic = self.init_const(c, name)
                    if ic is not None:
                        yield from self.ev_in_module(st, ic[0], ic[1]); return
                if h == "ref" and not (c.fields() and any(x[0] == name for x in c.fields())) and name not in c.init_ann():
                    yield st, T("attr", T("inst", base[1], c.qual), name); return
            yield st, T("attr", base if h == "t" else T("inst", base[1], t[1]), name); return
        if t and t[0] in ("list", "dict", "set", "oset", "str", "tuple", "int", "float"):
            yield st, ("bm", base, name); return
        yield st, T("attr", base, name)

    def init_const(self, c, name):
        """self.<name> assigned exactly once in the class family, in __init__, from a literal"""
        key = (c.qual, name)
        if key in self.inits: return self.inits[key]
        found = []
        for k in set(c.mro()) | set(self.prog.subclasses(c)):
            for m in k.methods.values():
                if not m.params: continue
                for n in ast.walk(m.node):
                    tg = []
                    if isinstance(n, ast.Assign): tg = [(t, n.value) for t in n.targets]
                    elif isinstance(n, (ast.AnnAssign, ast.AugAssign)): tg = [(n.target, n.value)]
                    for t, v in tg:
                        if isinstance(t, ast.Attribute) and t.attr == name: found.append((m, v, k))
        r = None
        if len(found) == 1 and found[0][0].name == "__init__":
            v = found[0][1]
            if isinstance(v, ast.Constant) and v.value is not None: r = (v, found[0][2].module)
        self.inits[key] = r
        return r

    def ev_in_module(self, st, expr, m):
        fid0 = st.fid; f2 = self.fresh(); s = st.fork()
        self.frame_mod[f2] = m; self.frame_parent[f2] = None; self.frame_func[f2] = None
        s.frames[f2] = {}; s.fid = f2
        for s2, v in self.ev(s, expr):
            s2.fid = fid0
            if f2 not in self.captured: s2.frames.pop(f2, None)
            yield s2, v

    def resolved(self, st, r, name, m):
        if r is None:
            import builtins as _b
            if hasattr(_b, name):
                o = getattr(_b, name)
                if isinstance(o, type) and issubclass(o, BaseException): yield st, ("cls", name); return
                yield st, ("bi", name); return
            yield st, self.unk(st.fork() if False else st, "unresolved name " + name); return
        k = r[0]
        if k == "class": yield st, ("cls", r[1].qual)
        elif k == "func":
            i = self.fresh(); self.fns[i] = (r[1], None, None); yield st, ("fn", i)
        elif k == "const":
            if isinstance(r[1], ast.Constant): yield st, K(r[1].value)
            elif (isinstance(r[1], (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(r[1], ast.Call)) and not self.simple_ctor(r[1], r[2]):
                # a module-level object: opaque but a stable identity; its literal is available for reading
                yield from self.global_obj(st, name, r)
            else: yield from self.ev_in_module(st, r[1], r[2])
        elif k == "module": yield st, ("mod", r[1])
        elif k == "ext": yield st, ("ext", r[1])
        else: yield st, T("global", m.name, name)

    def simple_ctor(self, e, m):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and all(isinstance(a, ast.Constant) for a in e.args) and not e.keywords:
            r = self.prog.resolve(m, e.func.id)
            return bool(r and r[0] == "class" and r[1].frozen)
        return False

    def global_obj(self, st, name, r):
        v = T("global", r[2].name, name)
        if v not in st.heap:
            for s, x in self.ev_in_module(st, r[1], r[2]):
                if x[0] == "ref":
                    s = s.fork(); s.heap[v] = s.heap[x]
                    for (b, n), y in list(s.fields.items()):
                        if b == x: s.fields[(v, n)] = y
                    o = s.heap[x]
                    if o.kind == "inst": self.types[v] = ("cls", o.cls); s.heap.pop(v)
                    else: self.types[v] = (o.kind, None) if o.kind != "dict" else ("dict", None, None)
                yield s, v
            return
        yield st, v

    def lookup_name(self, st, name, node):
        fid = st.fid
        while fid is not None:
            fr = st.frames.get(fid)
            if fr is not None and name in fr:
                yield st, fr[name]; return
            fid = self.frame_parent.get(fid)
        m = self.frame_mod.get(st.fid)
        f = self.frame_func.get(st.fid)
        fid = st.fid
        while fid is not None:
            b = getattr(self.frame_func.get(fid), "local_imports", None)
            ff = self.frame_func.get(fid)
            if ff is not None:
                if b is None:
                    b = {}
                    mm = Module("<local>", None, None, None, False); mm.name = ff.module.name; mm.binds = {}
                    self.prog._bind(mm, [n for n in ast.walk(ff.node) if isinstance(n, (ast.Import, ast.ImportFrom))])
                    b = mm; ff.local_imports = mm
                if name in b.binds:
                    yield from self.resolved(st, self.prog.resolve(b, name), name, m); return
            fid = self.frame_parent.get(fid)
        yield from self.resolved(st, self.prog.resolve(m, name) if m else None, name, m)

    # ------------------------------------------------------------ subscripts
    def getitem(self, st, base, key, node=None):
        """yield (state, value)"""
        h = base[0]
        o = st.heap.get(base)
        if h == "tup" and is_k(key) and isinstance(kv(key), int):
            n = len(base) - 1; i = kv(key)
            if -n <= i < n: yield st, base[1 + (i % n)]; return
            yield st, self.exc("IndexError", None, "implicit", node); return
        if is_k(base) and is_k(key):
            try: yield st, K(kv(base)[kv(key)]); return
            except Exception: yield st, self.exc("IndexError", None, "implicit", node); return
        fk = self.freeze(st, key)
        if o is not None and o.kind == "dict":
            for s in reversed(o.segs):
                if s[0] == "put":
                    if s[1] == fk: yield st, s[2]; return
                    if is_k(s[1]) and is_k(fk): continue
                    eq = self.mk_cmp(st, "eq", s[1], fk)
                    if eq == FALSE: continue
                    if is_t(eq, "bool") and self.decide(st, eq[2]) is not None and self.decide(st, eq[2]) != eq[3]: continue
                    if o.base is not None and h != "ref" and is_t(eq, "bool"):
                        pass
                    break
                elif s[0] == "update": 
                    if len([x for x in o.segs]) >= 1 and s[1][0] == "t":
                        v = self.item_term(st, s[1], fk)
                        if v is not None: yield st, v; return
                    break
                elif s[0] == "base":
                    yield st, T("item", s[1], fk); return
                else: break
            else:
                if not o.segs or all(x[0] == "put" for x in o.segs): 
                    yield st, self.exc("KeyError", None, "implicit", node); return
            yield st, T("item", self.freeze(st, base), fk); return
        if o is not None and o.kind in ("list", "oset"):
            segs = o.segs
            if is_k(key) and isinstance(kv(key), int):
                i = kv(key)
                if i >= 0:
                    for s in segs:
                        if s[0] == "one":
                            if i == 0: yield st, s[1]; return
                            i -= 1
                        elif s[0] == "spread" and s is segs[0] and len(segs) == 1: yield st, T("item", s[1], K(i)); return
                        else: break
                else:
                    j = -i
                    for s in reversed(segs):
                        if s[0] == "one":
                            j -= 1
                            if j == 0: yield st, s[1]; return
                        else: break
            if len(segs) == 1 and segs[0][0] == "spread": yield st, T("item", segs[0][1], fk); return
            yield st, T("item", self.freeze(st, base), fk); return
        yield st, self.item_term(st, base, fk) or T("item", self.freeze(st, base), fk)

    def item_term(self, st, base, fk):
        b = base
        if is_t(b, "slice") and is_k(b[3]) and is_k(b[4]) and b[5] == NONE and is_k(fk) and type(kv(fk)) is int:      # the front part of a list
            lo, hi = kv(b[3]) or 0, kv(b[4])
            if type(lo) is int and type(hi) is int and 0 <= kv(fk) and 0 <= lo and lo + kv(fk) < hi: return T("item", b[2], K(lo + kv(fk)))
        if is_t(b, "slice") and b[4] == NONE:
            lo = b[3]
            if is_k(lo) and isinstance(kv(lo), int) and kv(lo) >= 0:
                if is_k(fk) and isinstance(kv(fk), int) and kv(fk) >= 0: return T("item", b[2], K(kv(lo) + kv(fk)))
                if self.typeof(fk, st) == ("int",) and not is_k(fk):
                    x, k = self.norm_int(fk); return T("item", b[2], self.mk_int(x, k + kv(lo)))
        if is_t(b) and b[1] in ("list",) and is_k(fk) and isinstance(kv(fk), int):
            if 0 <= kv(fk) < len(b) - 2 and all(s[0] == "one" for s in b[2:2 + kv(fk) + 1]): return b[2 + kv(fk)][1]
        if is_t(b, "dict"):
            for s in reversed(b[2:]):
                if s[0] == "put":
                    if s[1] == fk: return s[2]
                    if is_k(s[1]) and is_k(fk): continue
                    return None
                if s[0] == "update": return T("item", s[1], fk)
                return None
        if is_t(b, "sorted") and False: return None
        if is_t(b) and b[1] == "tupof" : return None
        return T("item", b, fk)

    # ------------------------------------------------------------ expressions
    def ev(self, st, n):
        """yield (state, value); value may be ('exc', ...)"""
        self.tick()
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            s = st.fork(); yield s, self.unk(s, "expression " + type(n).__name__); return
        yield from m(st, n)

    def ev_seq(self, st, nodes):
        """evaluate several expressions left to right; yield (state, [values]) or (state, exc)"""
        if not nodes: yield st, []; return
        for s, v in self.ev(st, nodes[0]):
            if is_exc(v): yield s, v; continue
            for s2, rest in self.ev_seq(s, nodes[1:]):
                if isinstance(rest, tuple): yield s2, rest
                else: yield s2, [v] + rest

    def ev_Constant(self, st, n):
        yield st, (K(n.value) if n.value is not ... else T("ellipsis"))

    def ev_Name(self, st, n):
        for s, v in self.lookup_name(st, n.id, n):
            if v == ("undef",):
                yield s, self.exc("UnboundLocalError", K(n.id), "implicit", n)
            else: yield s, v

    def ev_Attribute(self, st, n):
        for s, b in self.ev(st, n.value):
            if is_exc(b): yield s, b; continue
            yield from self.getattr_(s, b, n.attr, n)

    def ev_Tuple(self, st, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            for s, v in self.star_list(st, n.elts, n):
                if is_exc(v): yield s, v
                else:
                    o = s.heap[v]
                    if all(g[0] == "one" for g in o.segs): yield s, ("tup",) + tuple(g[1] for g in o.segs)
                    else: yield s, T("tupof", self.freeze(s, v))
            return
        for s, vs in self.ev_seq(st, n.elts):
            if isinstance(vs, tuple): yield s, vs
            else: yield s, ("tup",) + tuple(vs)

    def star_list(self, st, elts, n):
        s = st.fork(); r = self.new_obj(s, "list")
        def go(s, i):
            if i == len(elts): yield s, r; return
            e = elts[i]
            for s1, v in self.ev(s, e.value if isinstance(e, ast.Starred) else e):
                if is_exc(v): yield s1, v; continue
                s2 = s1.fork()
                segs = self.iter_segs(s2, v) if isinstance(e, ast.Starred) else [("one", v)]
                s2.heap[r] = s2.heap[r].with_segs(s2.heap[r].segs + tuple(segs))
                yield from go(s2, i + 1)
        yield from go(s, 0)

    def ev_List(self, st, n): yield from self.star_list(st, n.elts, n)

    def ev_Set(self, st, n):
        for s, v in self.star_list(st, n.elts, n):
            if not is_exc(v): s.heap[v] = Obj("set", None, None, s.heap[v].segs)
            yield s, v

    def ev_Dict(self, st, n):
        s = st.fork(); r = self.new_obj(s, "dict")
        def go(s, i):
            if i == len(n.keys): yield s, r; return
            ks = [n.keys[i], n.values[i]] if n.keys[i] is not None else [n.values[i]]
            for s1, vs in self.ev_seq(s, ks):
                if isinstance(vs, tuple): yield s1, vs; continue
                s2 = s1.fork()
                if len(vs) == 2: self.dict_put(s2, r, vs[0], vs[1])
                else: self.dict_update(s2, r, vs[0])
                yield from go(s2, i + 1)
        yield from go(s, 0)

    def dict_put(self, st, r, k, v):
        o = st.heap[r]; fk = self.freeze(st, k)
        segs = o.segs
        if segs and segs[-1][0] == "put" and segs[-1][1] == fk: segs = segs[:-1]
        elif all(s[0] == "put" and is_k(s[1]) for s in segs) and is_k(fk): segs = tuple(s for s in segs if s[1] != fk)
        st.heap[r] = o.with_segs(segs + (("put", fk, v),))

    def dict_update(self, st, r, src):
        o = st.heap[r]
        so = st.heap.get(src)
        if so is not None and so.kind == "dict" and src[0] == "ref": add = so.segs
        else: add = (("update", self.freeze(st, src)),)
        st.heap[r] = o.with_segs(o.segs + tuple(add))

    def iter_segs(self, st, v):
        """segments that spreading v into a list adds"""
        if v[0] == "tup": return [("one", x) for x in v[1:]]
        o = st.heap.get(v)
        if o is not None and o.kind in ("list",) and v[0] == "ref": return list(o.segs)
        if o is not None and o.kind in ("oset", "set") and v[0] == "ref" and all(s[0] == "one" for s in o.segs) and len(o.segs) <= 1: return list(o.segs)
        f = self.freeze(st, v)
        if is_t(f, "list"): return list(f[2:])
        return [("spread", f)]

    def ev_UnaryOp(self, st, n):
        if isinstance(n.op, ast.Not):
            for s, v in self.ev(st, n.operand):
                if is_exc(v): yield s, v; continue
                yield s, self.truth_value(s, v, False)
            return
        for s, v in self.ev(st, n.operand):
            if is_exc(v): yield s, v; continue
            if is_k(v):
                try:
                    x = kv(v); yield s, K(-x if isinstance(n.op, ast.USub) else +x if isinstance(n.op, ast.UAdd) else ~x); continue
                except Exception: pass
            o = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)]
            if o == "-" and is_t(v, "un") and v[2] == "-": yield s, v[3]
            else: yield s, T("un", o, self.freeze(s, v))

    def truth_value(self, st, v, pol=True):
        """boolean value of truthiness (unsplit)"""
        if is_k(v): return K(bool(kv(v)) == pol)
        if is_t(v, "bool") or is_t(v, "not") or is_t(v, "anyof"): return v if pol else self.neg(v)
        fv = self.freeze(st, v)
        if is_t(fv, "len"): fv = fv[2]
        if is_t(fv) and fv[1] in ("sorted", "keys", "values", "items", "enumerate", "reversed"): fv = fv[2]
        d = self.decide(st, ("truthy", fv))
        if d is not None: return K(d == pol)
        return atom_val(("truthy", fv), pol)

    def ev_BoolOp(self, st, n):
        isand = isinstance(n.op, ast.And)
        def go(s, i):
            for s1, v in self.ev(s, n.values[i]):
                if is_exc(v): yield s1, v; continue
                if i == len(n.values) - 1: yield s1, v; continue
                for s2, b in self.branch(s1, v):
                    if b == isand: yield from go(s2, i + 1)
                    else:
                        if is_t(v) and v[1] in ("bool", "not", "anyof"): yield s2, K(b)
                        else: yield s2, v
        yield from go(st, 0)

    def ev_IfExp(self, st, n):
        for s, v in self.ev(st, n.test):
            if is_exc(v): yield s, v; continue
            for s1, b in self.branch(s, v):
                yield from self.ev(s1, n.body if b else n.orelse)

    def ev_Compare(self, st, n):
        def go(s, left, i):
            for s1, r in self.ev(s, n.comparators[i]):
                if is_exc(r): yield s1, r; continue
                if isinstance(n.ops[i], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)): s1 = self.op_event(s1, "<", left, r, n)
                if i == len(n.ops) - 1 and isinstance(n.ops[i], (ast.Eq, ast.NotEq)) and left[0] == r[0] == "tup" and len(left) == len(r) and 2 < len(r) < 9:
                    yield from self.same_tuples(s1, left[1:], r[1:], isinstance(n.ops[i], ast.Eq)); continue
                v = self.compare(s1, BOOLOPS[type(n.ops[i])], left, r)
                if i == len(n.ops) - 1: yield s1, v; continue
                for s2, b in self.branch(s1, v):
                    if not b: yield s2, FALSE
                    else: yield from go(s2, r, i + 1)
        for s, l in self.ev(st, n.left):
            if is_exc(l): yield s, l; continue
            yield from go(s, l, 0)

    def same_tuples(self, st, xs, ys, pol):
        """two tuples are equal when their elements are, compared from the left"""
        if not xs: yield st, K(pol); return
        for s, b in self.branch(st, self.compare(st, "eq", xs[0], ys[0])):
            if not b: yield s, K(not pol)
            else: yield from self.same_tuples(s, xs[1:], ys[1:], pol)

    def op_event(self, st, op, a, b, node):
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if not (fa[0] == "t" and fa[1] in ("item", "param", "attr") or fb[0] == "t" and fb[1] in ("item", "param", "attr")): return st
        st = st.fork()
        st.trace = st.trace + (Event("op", dict(name=op, args=(fa, fb), facts=dict(st.facts), node=node)),)
        return st

    def compare(self, st, op, a, b):
        v = self.mk_cmp(st, op, a, b)
        if is_t(v, "bool"):
            d = self.decide(st, v[2])
            if d is not None: return K(d == v[3])
        return v

    def ev_BinOp(self, st, n):
        for s, vs in self.ev_seq(st, [n.left, n.right]):
            if isinstance(vs, tuple): yield s, vs; continue
            yield from self.binop(s, BINOPS[type(n.op)], vs[0], vs[1], n)

    def binop(self, st, op, a, b, node):
        if is_k(a) and is_k(b):
            try:
                x, y = kv(a), kv(b)
                if op in "+-*" or op in ("//", "%", "/") or op in ("|", "&"):
                    if not (op == "*" and (isinstance(x, str) or isinstance(y, str)) and max(x if isinstance(x, int) else 0, y if isinstance(y, int) else 0) > 1000):
                        v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "//": lambda: x // y, "%": lambda: x % y, "/": lambda: x / y, "|": lambda: x | y, "&": lambda: x & y}[op]()
                        yield st, K(v); return
            except Exception: pass
        ka, kb = self.kind(a, st), self.kind(b, st)
        oa, ob = st.heap.get(a), st.heap.get(b)
        if ka is None or kb is None:
            st = self.op_event(st, op, a, b, node)
        if op == "+":
            if ka == "str" or kb == "str":
                yield st, self.mk_str(st, [a, b]); return
            if ka == "list" or kb == "list":
                s = st.fork(); yield s, self.new_obj(s, "list", self.iter_segs(s, a) + self.iter_segs(s, b)); return
            if a[0] == "tup" and b[0] == "tup": yield st, a + b[1:]; return
            if ka == "tuple" or kb == "tuple":
                s = st.fork(); r = self.new_obj(s, "list", self.iter_segs(s, a) + self.iter_segs(s, b))
                yield s, T("tupof", self.freeze(s, r)); return
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            (x, k), (y, m) = self.norm_int(fa), self.norm_int(fb)
            if y is None: yield st, self.mk_int(x, k + m) if x is not None else K(k + m); return
            if x is None and self.kind(y, st) in ("int", None): yield st, self.mk_int(y, k + m); return
            yield st, T("bin", "+", fa, fb); return
        if op == "-":
            if ka in ("set", "oset", "dict") or kb in ("set",): 
                yield st, T("bin", "-", self.freeze(st, a), self.freeze(st, b)); return
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            (x, k), (y, m) = self.norm_int(fa), self.norm_int(fb)
            if y is None and x is not None: yield st, self.mk_int(x, k - m); return
            yield st, T("bin", "-", fa, fb); return
        if op == "|" and (ka == "dict" or kb == "dict"):
            s = st.fork(); r = self.new_obj(s, "dict"); self.dict_update(s, r, a); self.dict_update(s, r, b); yield s, r; return
        if op == "|" and (ka in ("set", "oset") or kb in ("set", "oset")):
            s = st.fork(); yield s, self.new_obj(s, "set", self.iter_segs(s, a) + self.iter_segs(s, b)); return
        if op == "%" and ka == "str":
            parts = [a] + (list(b[1:]) if b[0] == "tup" else [b])
            if is_k(a) and hasattr(self, "text_of"):
                lits = kv(a).split("%s")
                if len(lits) == len(parts) and not any("%" in x for x in lits):
                    yield st, self.text_of(st, [x for i, l in enumerate(lits) for x in ([K(l)] if i == 0 else [[parts[i]], K(l)])]); return
            yield st, T("fstr", *[self.freeze(st, p) for p in parts]); return
        if op == "*" and (ka == "list" or kb == "list"):
            l, k = (a, b) if ka == "list" else (b, a)
            o = st.heap.get(l)
            if o is not None and is_k(k) and isinstance(kv(k), int) and 0 <= kv(k) <= 64 and all(g[0] == "one" for g in o.segs):
                s = st.fork(); yield s, self.new_obj(s, "list", o.segs * kv(k)); return
            yield st, T("repeat", self.freeze(st, l), self.freeze(st, k)); return
        yield st, T("bin", op, self.freeze(st, a), self.freeze(st, b))

    def mk_str(self, st, parts):
        out = []
        for p in parts:
            f = self.freeze(st, p)
            sub = list(f[2:]) if is_t(f, "fstr") else [f]
            for x in sub:
                if is_k(x) and isinstance(kv(x), str):
                    if kv(x) == "": continue
                    if out and is_k(out[-1]) and isinstance(kv(out[-1]), str): out[-1] = K(kv(out[-1]) + kv(x)); continue
                out.append(x)
        if not out: return K("")
        if len(out) == 1 and (is_k(out[0]) or self.kind(out[0], st) == "str"): return out[0]
        return T("fstr", *out)

    def ev_JoinedStr(self, st, n):
        nodes = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        for s, vs in self.ev_seq(st, nodes):
            if isinstance(vs, tuple): yield s, vs; continue
            parts = []
            for e, v in zip(n.values, vs):
                if isinstance(e, ast.FormattedValue) and not (is_k(v) and isinstance(kv(v), str)):
                    v = K(str(kv(v))) if is_k(v) and e.conversion == -1 and e.format_spec is None else v if self.kind(v, s) == "str" else T("str", self.freeze(s, v))
                parts.append(v)
            r = self.mk_str(s, parts)
            yield s, r if is_k(r) or is_t(r, "fstr") else T("fstr", r) if self.kind(r, s) != "str" else r

    def ev_FormattedValue(self, st, n): yield from self.ev(st, n.value)

    def ev_Starred(self, st, n): yield from self.ev(st, n.value)

    def ev_NamedExpr(self, st, n):
        for s, v in self.ev(st, n.value):
            if is_exc(v): yield s, v; continue
            s2 = s.fork(); s2.set(n.target.id, v); yield s2, v

    def ev_Lambda(self, st, n):
        i = self.fresh(); f = Func(n, self.frame_mod.get(st.fid))
        f.qual = f"{f.qual}@{n.lineno}:{n.col_offset}"
        self.fns[i] = (f, st.fid, None)
        fid = st.fid
        while fid is not None: self.captured.add(fid); fid = self.frame_parent.get(fid)
        yield st, ("fn", i)

    def ev_Subscript(self, st, n):
        for s, b in self.ev(st, n.value):
            if is_exc(b): yield s, b; continue
            if isinstance(n.slice, ast.Slice):
                parts = [n.slice.lower, n.slice.upper, n.slice.step]
                for s1, vs in self.ev_seq(s, [p or ast.Constant(value=None) for p in parts]):
                    if isinstance(vs, tuple): yield s1, vs; continue
                    yield s1, self.slice(s1, b, *vs)
                continue
            for s1, k in self.ev(s, n.slice):
                if is_exc(k): yield s1, k; continue
                if s1.raising and not is_k(k):
                    # an implicit KeyError / IndexError inside a try
                    e = s1.fork()
                    e2 = self.assume(e, ("in", self.freeze(e, k), self.freeze(e, b)), False) if self.kind(b, e) in ("dict", None) else e
                    if e2 is not None: yield e2, self.exc("KeyError" if self.kind(b, e) != "list" else "IndexError", None, "implicit", n)
                yield from self.getitem(s1, b, k, n)

    def slice(self, st, b, lo, hi, step):
        if b[0] == "tup" and all(is_k(x) for x in (lo, hi, step)):
            return ("tup",) + b[1:][slice(kv(lo), kv(hi), kv(step))]
        if is_k(b) and all(is_k(x) for x in (lo, hi, step)):
            try: return K(kv(b)[slice(kv(lo), kv(hi), kv(step))])
            except Exception: pass
        o = st.heap.get(b)
        if lo == K(0): lo = NONE
        if step == K(1): step = NONE
        if o is not None and o.kind == "list" and all(g[0] == "one" for g in o.segs) and all(is_k(x) for x in (lo, hi, step)):
            return self.new_obj(st, "list", o.segs[slice(kv(lo), kv(hi), kv(step))])
        f = self.freeze(st, b)
        if lo == NONE and hi == NONE and step == NONE: 
            return self.new_obj(st, "list", self.iter_segs(st, b)) if self.kind(b, st) == "list" else f
        if is_t(hi, "len") and hi[2] == f: hi = NONE
        if is_t(f, "slice") and f[5] == NONE and f[4] == NONE and step == NONE and is_k(f[3]) and is_k(lo) and kv(f[3]) is not None and kv(lo) is not None and kv(lo) >= 0 and hi == NONE:
            return T("slice", f[2], K(kv(f[3]) + kv(lo)), NONE, NONE)
        t = T("slice", f, lo if is_k(lo) else self.freeze(st, lo), hi if is_k(hi) else self.freeze(st, hi), step)
        bt = self.typeof(b, st)
        if bt and t not in self.types: self.types[t] = bt
        return t

    def ev_Call(self, st, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = self.frame_func.get(st.fid)
            fr = st.frames[st.fid]
            if f and f.cls and f.params: yield st, ("super", f.cls, fr[f.params[0]]); return
        for s, f in self.ev(st, n.func):
            if is_exc(f): yield s, f; continue
            def args(s, i, acc):
                if i == len(n.args): yield s, acc; return
                a = n.args[i]
                if isinstance(a, ast.Starred):
                    for s1, v in self.ev(s, a.value):
                        if is_exc(v): yield s1, v; continue
                        segs = self.iter_segs(s1, v)
                        if all(g[0] == "one" for g in segs): yield from args(s1, i + 1, acc + [g[1] for g in segs])
                        else: yield from args(s1, i + 1, acc + [("starunk", self.freeze(s1, v))])
                    return
                for s1, v in self.ev(s, a):
                    if is_exc(v): yield s1, v; continue
                    yield from args(s1, i + 1, acc + [v])
            for s1, a in args(s, 0, []):
                if isinstance(a, tuple): yield s1, a; continue
                for s2, ks in self.ev_seq(s1, [k.value for k in n.keywords]):
                    if isinstance(ks, tuple): yield s2, ks; continue
                    kw = {}; bad = False
                    for k, v in zip(n.keywords, ks):
                        if k.arg is None:
                            o = s2.heap.get(v)
                            if o is not None and o.kind == "dict" and all(g[0] == "put" and is_k(g[1]) for g in o.segs):
                                kw.update({kv(g[1]): g[2] for g in o.segs})
                            else: bad = True
                        else: kw[k.arg] = v
                    if bad: s2.mark("**kwargs")
                    yield from self.call(s2, f, a, kw, n)

    def ev_Yield(self, st, n):
        for s, v in (self.ev(st, n.value) if n.value else [(st, NONE)]):
            if is_exc(v): yield s, v; continue
            hook = next((h for h in reversed(self.yield_hooks) if h[0] == s.fid), None)
            if hook is not None:
                yield from hook[1](s, v); continue
            y = s.frames[s.fid].get("$yield")
            s2 = s.fork()
            if y is None: yield s2, self.unk(s2, "yield"); continue
            o = s2.heap[y]; s2.heap[y] = o.with_segs(o.segs + (("one", v),))
            yield s2, NONE

    def ev_YieldFrom(self, st, n):
        for s, v in self.ev(st, n.value):
            if is_exc(v): yield s, v; continue
            y = s.frames[s.fid].get("$yield"); s2 = s.fork()
            if y is None: yield s2, self.unk(s2, "yield from"); continue
            o = s2.heap[y]; s2.heap[y] = o.with_segs(o.segs + tuple(self.iter_segs(s2, v)))
            yield s2, NONE

    # ------------------------------------------------------------ comprehensions
    def comp(self, st, n, kind, emit):
        """list/set/dict/generator comprehension -> list-like object; emit(state, obj) evaluates the element"""
        fid0 = st.fid
        f2 = self.fresh(); self.frame_parent[f2] = fid0; self.frame_mod[f2] = self.frame_mod.get(fid0); self.frame_func[f2] = self.frame_func.get(fid0)
        s0 = st.fork(); s0.frames[f2] = {}; s0.fid = f2
        r = self.new_obj(s0, kind)
        gens = n.generators

        def level(i):
            def body(s):
                def conds(s, j):
                    if j == len(gens[i].ifs):
                        if i + 1 < len(gens): yield from loop_at(s, i + 1)
                        else: yield from emit(s, r)
                        return
                    for s1, v in self.ev(s, gens[i].ifs[j]):
                        if is_exc(v): yield s1, ("raise", v); continue
                        for s2, b in self.branch(s1, v):
                            if b: yield from conds(s2, j + 1)
                            else: yield s2, None
                yield from conds(s, 0)
            return body

        def loop_at(s, i):
            if i == 0: s = s.fork(); s.fid = fid0
            for s1, it in self.ev(s, gens[i].iter):
                s1 = s1.fork(); s1.fid = f2
                if is_exc(it): yield s1, ("raise", it); continue
                yield from self.iterate(s1, it, lambda s, v, i=i: self.assign_target(s, gens[i].target, v), level(i), n)
        for s, ctl in loop_at(s0, 0):
            s = s.fork(); s.fid = fid0
            if f2 not in self.captured: s.frames.pop(f2, None)
            yield s, (ctl[1] if ctl and ctl[0] == "raise" else r)

    def emit_elt(self, elt):
        def emit(s, r):
            for s1, v in self.ev(s, elt):
                if is_exc(v): yield s1, ("raise", v); continue
                s2 = s1.fork(); o = s2.heap[r]; s2.heap[r] = o.with_segs(o.segs + (("one", v),)); yield s2, None
        return emit

    def ev_ListComp(self, st, n): yield from self.comp(st, n, "list", self.emit_elt(n.elt))
    def ev_GeneratorExp(self, st, n): yield from self.comp(st, n, "list", self.emit_elt(n.elt))
    def ev_SetComp(self, st, n): yield from self.comp(st, n, "set", self.emit_elt(n.elt))
    def ev_DictComp(self, st, n):
        def emit(s, r):
            for s1, vs in self.ev_seq(s, [n.key, n.value]):
                if isinstance(vs, tuple): yield s1, ("raise", vs); continue
                s2 = s1.fork(); self.dict_put(s2, r, vs[0], vs[1]); yield s2, None
        yield from self.comp(st, n, "dict", emit)

    # ------------------------------------------------------------ assignment
    def assign_target(self, st, t, v):
        """yield (state, ctl)"""
        if isinstance(t, ast.Name):
            s = st.fork(); fid = self.target_frame(s, t.id); s.set(t.id, v, fid); yield s, None; return
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)); after = len(t.elts) - k - 1
                def go(s, i):
                    if i == len(t.elts): yield s, None; return
                    if i < k: src = list(self.getitem(s, v, K(i)))
                    elif i == k:
                        s = s.fork(); src = [(s, self.slice(s, v, K(k), NONE if not after else K(-after), NONE))]
                    else: src = list(self.getitem(s, v, K(i - len(t.elts))))
                    for s1, x in src:
                        if is_exc(x): yield s1, ("raise", x); continue
                        e = t.elts[i]
                        for s2, c in self.assign_target(s1, e.value if isinstance(e, ast.Starred) else e, x):
                            if c: yield s2, c
                            else: yield from go(s2, i + 1)
                yield from go(st, 0); return
            def go(s, i):
                if i == len(t.elts): yield s, None; return
                for s1, x in self.getitem(s, v, K(i)):
                    if is_exc(x): yield s1, ("raise", x); continue
                    for s2, c in self.assign_target(s1, t.elts[i], x):
                        if c: yield s2, c
                        else: yield from go(s2, i + 1)
            if v[0] == "tup" and len(v) - 1 != len(t.elts):
                yield st, ("raise", self.exc("ValueError", K("unpack"), "implicit", t)); return
            yield from go(st, 0); return
        if isinstance(t, ast.Attribute):
            for s, b in self.ev(st, t.value):
                if is_exc(b): yield s, ("raise", b); continue
                s2 = s.fork(); 
                s2.fields[(b, t.attr)] = v
                s2.event("setattr", dict(base=self.freeze(s2, b) if b[0] != "ref" else b, name=t.attr, value=self.freeze(s2, v), raw=v, node=t, func=self.frame_func.get(s2.fid), facts=dict(s2.facts)))
                yield s2, None
            return
        if isinstance(t, ast.Subscript):
            for s, b in self.ev(st, t.value):
                if is_exc(b): yield s, ("raise", b); continue
                if isinstance(t.slice, ast.Slice):
                    s2 = s.fork()
                    o = s2.heap.get(b)
                    if t.slice.lower is None and t.slice.upper is None:
                        self.replace_list(s2, b, self.iter_segs(s2, v))
                    else: s2.mark("slice assignment"); self.replace_list(s2, b, [("spread", self.unk(s2, "slice assignment"))])
                    s2.event("mutate", dict(target=self.freeze(s2, b), op="slice=", args=(self.freeze(s2, v),), node=t, func=self.frame_func.get(s2.fid)))
                    yield s2, None; continue
                for s1, k in self.ev(s, t.slice):
                    if is_exc(k): yield s1, ("raise", k); continue
                    s2 = s1.fork(); self.setitem(s2, b, k, v, t); yield s2, None
            return
        if isinstance(t, ast.Starred):
            yield from self.assign_target(st, t.value, v); return
        s = st.fork(); s.mark("assignment target"); yield s, None

    def target_frame(self, st, name):
        f = self.frame_func.get(st.fid)
        nl = getattr(f, "_nonlocal", None)
        if f is not None and nl is None:
            nl = set()
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Nonlocal, ast.Global)): nl |= set(n.names)
            f._nonlocal = nl
        if nl and name in nl:
            fid = self.frame_parent.get(st.fid)
            while fid is not None:
                if name in st.frames.get(fid, {}): return fid
                fid = self.frame_parent.get(fid)
        return st.fid

    def setitem(self, st, b, k, v, node):
        o = st.heap.get(b)
        kd = o.kind if o else self.kind(b, st)
        if o is None:
            kd = kd if kd in ("list", "dict") else "dict"
            o = self.ensure(st, b, kd)
        st.event("put", dict(target=b if b[0] == "ref" else b, key=self.freeze(st, k), value=self.freeze(st, v), raw=v, node=node, func=self.frame_func.get(st.fid), facts=dict(st.facts), kind_=kd))
        if o.kind == "dict": self.dict_put(st, b, k, v)
        elif o.kind == "list":
            if is_k(k) and isinstance(kv(k), int) and all(g[0] == "one" for g in o.segs) and -len(o.segs) <= kv(k) < len(o.segs):
                g = list(o.segs); g[kv(k)] = ("one", v); st.heap[b] = o.with_segs(g)
            else:
                st.heap[b] = o.with_segs(o.segs + (("setat", self.freeze(st, k), v),))
        else: st.mark("item assignment on " + o.kind)

    def replace_list(self, st, b, segs):
        o = st.heap.get(b) or Obj("list", None, b, ())
        st.heap[b] = o.with_segs(segs)

    # ------------------------------------------------------------ statements
    def block(self, st, stmts):
        """yield (state, ctl)"""
        work = [(st, 0)]
        n = 0
        while work:
            s, i = work.pop()
            if i == len(stmts): yield s, None; continue
            self.tick()
            for s1, ctl in self.stmt(s, stmts[i]):
                if ctl is None: work.append((s1, i + 1))
                else: yield s1, ctl

    def stmt(self, st, n):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            s = st.fork(); s.mark("statement " + type(n).__name__); yield s, None; return
        yield from m(st, n)

    def st_Expr(self, st, n):
        for s, v in self.ev(st, n.value):
            yield s, (("raise", v) if is_exc(v) else None)

    def st_Pass(self, st, n): yield st, None
    def st_Import(self, st, n): yield st, None
    def st_ImportFrom(self, st, n): yield st, None
    def st_Global(self, st, n): yield st, None
    def st_Nonlocal(self, st, n): yield st, None
    def st_Break(self, st, n): yield st, ("break",)
    def st_Continue(self, st, n): yield st, ("continue",)

    def st_Assign(self, st, n):
        for s, v in self.ev(st, n.value):
            if is_exc(v): yield s, ("raise", v); continue
            def go(s, i):
                if i == len(n.targets): yield s, None; return
                for s1, c in self.assign_target(s, n.targets[i], v):
                    if c: yield s1, c
                    else: yield from go(s1, i + 1)
            yield from go(s, 0)

    def st_AnnAssign(self, st, n):
        if n.value is None: yield st, None; return
        for s, v in self.ev(st, n.value):
            if is_exc(v): yield s, ("raise", v); continue
            if is_t(v) and v not in self.types:
                t = self.prog.parse_type(n.annotation, self.frame_mod.get(s.fid))
                if t and self.typeof(v, s) is None: self.types[v] = t
            yield from self.assign_target(s, n.target, v)

    def st_AugAssign(self, st, n):
        op = BINOPS[type(n.op)]
        t = n.target
        def finish(s, cur, store):
            for s1, r in self.ev(s, n.value):
                if is_exc(r): yield s1, ("raise", r); continue
                k = self.kind(cur, s1)
                if op == "+" and k == "list":
                    s2 = s1.fork()
                    for s3, x in self.bmethod(s2, cur, "extend", [r], {}, n): yield s3, (("raise", x) if is_exc(x) else None)
                    continue
                if op == "|" and k in ("set", "oset", "dict"):
                    for s3, x in self.bmethod(s1, cur, "update", [r], {}, n): yield s3, (("raise", x) if is_exc(x) else None)
                    continue
                for s2, v in self.binop(s1, op, cur, r, n):
                    if is_exc(v): yield s2, ("raise", v); continue
                    yield from store(s2, v)
        if isinstance(t, ast.Name):
            for s, cur in self.ev(st, ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)):
                if is_exc(cur): yield s, ("raise", cur); continue
                yield from finish(s, cur, lambda s, v: self.assign_target(s, t, v))
        elif isinstance(t, ast.Attribute):
            for s, b in self.ev(st, t.value):
                if is_exc(b): yield s, ("raise", b); continue
                for s1, cur in self.getattr_(s, b, t.attr, t):
                    if is_exc(cur): yield s1, ("raise", cur); continue
                    def store(s, v, b=b):
                        s2 = s.fork(); s2.fields[(b, t.attr)] = v
                        s2.event("setattr", dict(base=b, name=t.attr, value=self.freeze(s2, v), raw=v, node=t, func=self.frame_func.get(s2.fid), facts=dict(s2.facts)))
                        yield s2, None
                    yield from finish(s1, cur, store)
        elif isinstance(t, ast.Subscript):
            for s, vs in self.ev_seq(st, [t.value, t.slice]):
                if isinstance(vs, tuple): yield s, ("raise", vs); continue
                b, k = vs
                for s1, cur in self.getitem(s, b, k, t):
                    if is_exc(cur): yield s1, ("raise", cur); continue
                    def store(s, v, b=b, k=k):
                        s2 = s.fork(); self.setitem(s2, b, k, v, t); yield s2, None
                    yield from finish(s1, cur, store)

    def st_Return(self, st, n):
        if n.value is None: yield st, ("return", NONE); return
        for s, v in self.ev(st, n.value):
            yield s, (("raise", v) if is_exc(v) else ("return", v))

    def st_If(self, st, n):
        for s, v in self.ev(st, n.test):
            if is_exc(v): yield s, ("raise", v); continue
            for s1, b in self.branch(s, v):
                yield from self.block(s1, n.body if b else n.orelse)

    def st_Assert(self, st, n):
        for s, v in self.ev(st, n.test):
            if is_exc(v): yield s, ("raise", v); continue
            for s1, b in self.branch(s, v):
                if b: yield s1, None
                else: yield s1, ("raise", self.exc("AssertionError", None, "explicit", n))

    def st_Raise(self, st, n):
        if n.exc is None:
            cur = st.frames[st.fid].get("$exc")
            yield st, ("raise", cur if cur else self.exc("?", None, "reraise", n)); return
        for s, v in self.ev(st, n.exc):
            if is_exc(v): yield s, ("raise", v); continue
            if is_t(v, "new"):
                msg = next((f[2] for f in v[3:] if f[0] == "f" and f[1] in ("0", "msg", "message")), None)
                yield s, ("raise", ("exc", v[2].split(".")[-1] if v[2] not in self.prog.classes else v[2], msg, "explicit", n.lineno))
            elif v[0] == "cls": yield s, ("raise", ("exc", v[1], None, "explicit", n.lineno))
            elif is_t(v, "caught"): yield s, ("raise", v[2] if len(v) > 2 and is_exc(v[2]) else self.exc("?", None, "reraise", n))
            else: yield s, ("raise", ("exc", "?", self.freeze(s, v), "explicit", n.lineno))

    def st_FunctionDef(self, st, n):
        i = self.fresh(); f = Func(n, self.frame_mod.get(st.fid))
        pf = self.frame_func.get(st.fid)
        f.qual = (pf.qual + ".<locals>." if pf else "") + n.name
        self.fns[i] = (f, st.fid, None)
        fid = st.fid
        while fid is not None: self.captured.add(fid); fid = self.frame_parent.get(fid)
        s = st.fork(); s.set(n.name, ("fn", i)); yield s, None

    def st_ClassDef(self, st, n):
        s = st.fork(); s.set(n.name, self.unk(s, "local class")); yield s, None

    def st_Delete(self, st, n):
        def go(s, i):
            if i == len(n.targets): yield s, None; return
            t = n.targets[i]
            if isinstance(t, ast.Subscript):
                for s1, vs in self.ev_seq(s, [t.value, t.slice]) if not isinstance(t.slice, ast.Slice) else [(s, None)]:
                    if vs is None:
                        s2 = s1.fork(); s2.mark("del slice"); yield from go(s2, i + 1); continue
                    if isinstance(vs, tuple): yield s1, ("raise", vs); continue
                    s2 = s1.fork()
                    b = vs[0]; o = s2.heap.get(b) or self.ensure(s2, b, self.kind(b, s2) if self.kind(b, s2) in ("list", "dict") else "dict")
                    s2.heap[b] = o.with_segs(o.segs + (("del", self.freeze(s2, vs[1])),))
                    s2.event("mutate", dict(target=b, op="del", args=(self.freeze(s2, vs[1]),), node=t, func=self.frame_func.get(s2.fid), facts=dict(s2.facts)))
                    yield from go(s2, i + 1)
                return
            if isinstance(t, ast.Name):
                s2 = s.fork(); s2.set(t.id, ("undef",)); yield from go(s2, i + 1); return
            s2 = s.fork(); s2.mark("del"); yield from go(s2, i + 1)
        yield from go(st, 0)

    def st_Match(self, st, n):
        for s, subj in self.ev(st, n.subject):
            if is_exc(subj): yield s, ("raise", subj); continue
            def pat(s, p, v):
                """yield (state, matched)"""
                if isinstance(p, ast.MatchValue):
                    for s1, x in self.ev(s, p.value):
                        for s2, b in self.branch(s1, self.compare(s1, "eq", v, x)): yield s2, b
                elif isinstance(p, ast.MatchSingleton):
                    yield from self.branch(s, self.compare(s, "is", v, K(p.value)))
                elif isinstance(p, ast.MatchAs):
                    if p.pattern is None:
                        s1 = s.fork()
                        if p.name: s1.set(p.name, v)
                        yield s1, True
                    else:
                        for s1, b in pat(s, p.pattern, v):
                            if b and p.name: s1 = s1.fork(); s1.set(p.name, v)
                            yield s1, b
                elif isinstance(p, ast.MatchOr):
                    def go(s, i):
                        if i == len(p.patterns): yield s, False; return
                        for s1, b in pat(s, p.patterns[i], v):
                            if b: yield s1, True
                            else: yield from go(s1, i + 1)
                    yield from go(s, 0)
                elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                    for s1, c in self.ev(s, p.cls):
                        for s2, x in self.builtin(s1, "isinstance", [v, c], {}, n):
                            yield from self.branch(s2, x)
                else:
                    s1 = s.fork(); s1.mark("match pattern"); yield s1, True; yield s1.fork(), False
            def cases(s, i):
                if i == len(n.cases): yield s, None; return
                c = n.cases[i]
                for s1, b in pat(s, c.pattern, subj):
                    if not b: yield from cases(s1, i + 1); continue
                    if c.guard is None: yield from self.block(s1, c.body); continue
                    for s2, g in self.ev(s1, c.guard):
                        if is_exc(g): yield s2, ("raise", g); continue
                        for s3, b2 in self.branch(s2, g):
                            if b2: yield from self.block(s3, c.body)
                            else: yield from cases(s3, i + 1)
            yield from cases(s, 0)

    EXC_PARENTS = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "FileNotFoundError": "OSError", "PermissionError": "OSError", "OSError": "Exception", "IOError": "Exception",
                   "EOFError": "Exception", "UnboundLocalError": "NameError", "NameError": "Exception", "StopIteration": "Exception", "TypeError": "Exception", "ValueError": "Exception", "AttributeError": "Exception",
                   "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "AssertionError": "Exception", "RuntimeError": "Exception", "Exception": "BaseException"}

    def exc_matches(self, cls, handler):
        """True / False / None (maybe)"""
        handler = handler.split(".")[-1] if handler not in self.prog.classes else handler
        if handler == "BaseException": return True
        if handler == "IOError" or handler == "EnvironmentError": handler = "OSError"
        if cls == "?": return True if handler == "Exception" else None
        c = cls
        pc = self.prog.classes.get(c)
        if pc is not None:
            if pc.is_sub(handler): return True
            for b in pc.ext_bases():
                r = self.exc_matches(b, handler)
                if r: return True
            return False
        while c:
            if c == handler: return True
            c = self.EXC_PARENTS.get(c)
        return False if cls in self.EXC_PARENTS else (True if handler == "Exception" else None)

    def st_Try(self, st, n):
        fid = st.fid
        s0 = st.fork(); s0.raising += 1
        outs = []
        def handle(s, e):
            """exception e in the try body: yield (state, ctl)"""
            def go(s, i):
                if i == len(n.handlers): yield s, ("raise", e); return
                h = n.handlers[i]
                if h.type is None: names = ["BaseException"]
                else:
                    tl = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = []
                    for t in tl:
                        vs = [v for _, v in self.ev(s, t)]
                        v = vs[0]
                        names.append(v[1] if v[0] in ("cls", "ext") else "?unknown")
                ms = [self.exc_matches(e[1], x) for x in names]
                m = True if True in ms else (None if None in ms else False)
                if m is not False:
                    s1 = s.fork()
                    if h.name: s1.set(h.name, T("caught", e))
                    s1.set("$exc", e)
                    s1.event("handler", dict(exc=e, names=tuple(names), node=h, func=self.frame_func.get(s1.fid)))
                    for s2, c in self.block(s1, h.body): yield s2, c
                if m is not True: yield from go(s, i + 1)
            yield from go(s, 0)
        def body():
            for s, c in self.block(s0, n.body):
                s = s.fork(); s.raising = st.raising + (1 if n.finalbody else 0)
                if c and c[0] == "raise": yield from handle(s, c[1])
                elif c is None and n.orelse: yield from self.block(s, n.orelse)
                else: yield s, c
        for s, c in body():
            s = s.fork(); s.raising = st.raising
            if not n.finalbody: yield s, c; continue
            for s2, c2 in self.block(s, n.finalbody):
                yield s2, (c2 if c2 is not None else c)
    st_TryStar = st_Try

    def st_With(self, st, n, k=0):
        item = n.items[k]
        rest = (lambda s: self.st_With(s, n, k + 1)) if k + 1 < len(n.items) else (lambda s: self.block(s, n.body))
        # contextmanager-decorated generator of the program: the body runs at its yield
        ce = item.context_expr
        for s, v in self.with_value(st, ce, item, rest, n):
            yield s, v

    def with_value(self, st, ce, item, rest, n):
        if isinstance(ce, ast.Call):
            for s, f in self.ev(st, ce.func):
                func = None; recv = []
                if f[0] == "bound" and f[2].ctxman: func, recv, lex = f[2], [f[1]], None
                elif f[0] == "fn" and self.fns[f[1]][0].ctxman: func, lex = self.fns[f[1]][0], self.fns[f[1]][1]
                if func is not None:
                    for s1, args in self.ev_seq(s, list(ce.args)):
                        if isinstance(args, tuple): yield s1, ("raise", args); continue
                        yield from self.run_ctxman(s1, func, recv + args, lex, item, rest, n)
                else:
                    yield from self.plain_with(s, ce, item, rest, n)
            return
        yield from self.plain_with(st, ce, item, rest, n)

    def run_ctxman(self, st, func, args, lex, item, rest, n):
        outer = st.fid
        pend = {}
        def hook(s, v):
            inner = s.fid; stack = s.stack
            s1 = s.fork(); s1.fid = outer
            def after_assign(s2):
                if item.optional_vars is not None: yield from self.assign_target(s2, item.optional_vars, v)
                else: yield s2, None
            s1.raising += 1
            for s2, c in after_assign(s1):
                for s3, c3 in rest(s2):
                    s4 = s3.fork(); s4.fid = inner; s4.raising = s.raising
                    if c3 and c3[0] == "raise": yield s4, c3[1]
                    else:
                        if c3: s4.set("$ctl", ("ctl", c3), inner)
                        yield s4, NONE
        fid = None
        # find the frame id that inline will create: push a hook keyed lazily
        marker = [None, hook]
        self.yield_hooks.append(marker)
        marker[0] = self.n + 1
        try:
            ctl_box = []
            func2 = Func(func.node, func.module, func.cls, func.parent); func2.is_gen = False; func2.qual = func.qual
            for s, v in self.inline_ctx(st, func2, args, n, lex, marker):
                yield s, v
        finally:
            self.yield_hooks.remove(marker)

    def inline_ctx(self, st, func, args, node, lex, marker):
        self.functions.add(func.qual)
        fid = self.fresh(); marker[0] = fid
        self.frame_parent[fid] = lex; self.frame_mod[fid] = func.module; self.frame_func[fid] = func
        s = st.fork(); caller = s.fid; stack = s.stack
        s.frames[fid] = dict(zip(func.params, args)); s.fid = fid; s.stack = stack + (func.qual,)
        self.captured.add(fid)
        for s2, ctl in self.block(s, func.body):
            s3 = s2.fork(); s3.fid = caller; s3.stack = stack
            box = s3.frames.get(fid, {}).get("$ctl")
            s3.frames.pop(fid, None)
            if ctl and ctl[0] == "raise": yield s3, ctl
            elif box: yield s3, box[1]
            else: yield s3, None

    def plain_with(self, st, ce, item, rest, n):
        for s, v in self.ev(st, ce):
            if is_exc(v): yield s, ("raise", v); continue
            t = self.typeof(v, s)
            c = self.prog.classes.get(t[1]) if t and t[0] == "cls" else None
            en, ex = (c.find("__enter__"), c.find("__exit__")) if c else (None, None)
            def after_enter(s1, x):
                if item.optional_vars is not None: yield from self.assign_target(s1, item.optional_vars, x)
                else: yield s1, None
            enters = self.inline(s, en, [v], {}, n, None) if en else [(s.fork(), v)]
            sup = is_t(v, "call") and v[2] in ("contextlib.suppress",)
            for s1, x in enters:
                if is_exc(x): yield s1, ("raise", x); continue
                if not en: s1.event("enter", dict(ctx=self.freeze(s1, v), node=n, func=self.frame_func.get(s1.fid), facts=dict(s1.facts)))
                r0 = s1.raising
                s1.raising += 1 if (ex or sup) else 0
                for s2, c2 in after_enter(s1, x):
                    if c2: yield s2, c2; continue
                    for s3, c3 in rest(s2):
                        s4 = s3.fork(); s4.raising = r0
                        if ex:
                            for s5, y in self.inline(s4, ex, [v, NONE, NONE, NONE] if not (c3 and c3[0] == "raise") else [v, T("caught", c3[1]), T("caught", c3[1]), NONE], {}, n, None):
                                if is_exc(y): yield s5, ("raise", y); continue
                                if c3 and c3[0] == "raise":
                                    for s6, b in self.branch(s5, y): yield s6, (None if b else c3)
                                else: yield s5, c3
                            continue
                        s4.event("exit", dict(ctx=self.freeze(s4, v), node=n, raised=bool(c3 and c3[0] == "raise")))
                        if sup and c3 and c3[0] == "raise":
                            nm = [a[1] for a in v[4]]
                            ms = [self.exc_matches(c3[1][1], x) for x in nm]
                            if True in ms or None in ms:
                                s5 = s4.fork(); s5.event("handler", dict(exc=c3[1], names=tuple(nm), node=n, func=self.frame_func.get(s5.fid))); yield s5, None
                            if True not in ms: yield s4, c3
                            continue
                        yield s4, c3

    # ------------------------------------------------------------ loops
    def st_For(self, st, n):
        for s, it in self.ev(st, n.iter):
            if is_exc(it): yield s, ("raise", it); continue
            def orelse(s):
                if n.orelse: yield from self.block(s, n.orelse)
                else: yield s, None
            yield from self.iterate(s, it, lambda s, v: self.assign_target(s, n.target, v), lambda s: self.block(s, n.body), n, orelse)

    def st_While(self, st, n):
        orelse = (lambda s: self.block(s, n.orelse)) if n.orelse else None
        yield from self.while_loop(st, n, orelse)

    def dom_seqs(self, d):
        """the sequences a domain runs over in step"""
        if is_t(d, "zip"):
            out = []
            for x in d[2:]: out += self.dom_seqs(x)
            return out
        if is_t(d, "enumerate"): return self.dom_seqs(d[2])
        if is_t(d, "range") and d[2] == K(0) and d[4] == K(1) and is_t(d[3], "len"): return [d[3][2]]
        if is_t(d) and d[1] in ("items", "values", "keys"): return [T("keys", d[2]), d[2]]
        return [d]

    def elem(self, st, d, i):
        if is_t(d, "zip"): return tup(*[self.elem(st, x, i) for x in d[2:]])
        if is_t(d, "enumerate"):
            k = d[3]
            return tup(i if k == K(0) else self.mk_int(i, kv(k)) if is_k(k) else T("bin", "+", i, k), self.elem(st, d[2], i))
        if is_t(d, "range"):
            lo, step = d[2], d[4]
            if step == K(1):
                if lo == K(0): return i
                if is_k(lo): return self.mk_int(i, kv(lo))
                b, k = self.norm_int(lo); return T("bin", "+", lo, i)
            return T("bin", "+", lo, T("bin", "*", i, step))
        if is_t(d, "items"): return tup(T("item", T("keys", d[2]), i), T("item", d[2], T("item", T("keys", d[2]), i)))
        if is_t(d, "values"): return T("item", d[2], T("item", T("keys", d[2]), i))
        if is_t(d, "sorted") or is_t(d, "reversed"):
            v = T("item", d, i); t = self.typeof(d[2], st)
            if t and len(t) > 1 and t[1] and v not in self.types: self.types[v] = t[1]
            return v
        return self.item_term(st, d, i) or T("item", d, i)

    def iter_source(self, st, it):
        """-> list of ('one', v) / ('dom', d) / ('acc', L, obj)"""
        if it[0] == "tup": return [("one", x) for x in it[1:]]
        if is_k(it) and isinstance(kv(it), str) and len(kv(it)) <= 4: return [("one", K(c)) for c in kv(it)]
        o = st.heap.get(it)
        f = None
        if o is not None and it[0] == "ref" and o.kind in ("list", "oset", "set"):
            segs = o.segs
        elif o is not None and o.kind == "dict" and it[0] == "ref":
            if all(s[0] == "put" for s in o.segs) and all(is_k(s[1]) for s in o.segs): return [("one", s[1]) for s in o.segs]
            return [("dom", T("keys", self.freeze(st, it)))]
        elif o is not None and it[0] == "t" and is_t(it, "global") and all(s[0] == "one" for s in o.segs) and o.kind == "list":
            segs = o.segs
        else:
            f = self.freeze(st, it)
            if is_t(f, "list"): segs = f[2:]
            elif is_t(f, "reversed") and is_t(f[2], "list") and all(s[0] == "one" for s in f[2][2:]): segs = tuple(reversed(f[2][2:]))
            elif is_t(f, "items") and is_t(f[2], "dict") and all(s[0] == "put" for s in f[2][2:]): segs = [("one", tup(s[1], s[2])) for s in f[2][2:]]
            elif is_t(f, "values") and is_t(f[2], "dict") and all(s[0] == "put" for s in f[2][2:]): segs = [("one", s[2]) for s in f[2][2:]]
            elif is_t(f, "keys") and is_t(f[2], "dict") and all(s[0] == "put" for s in f[2][2:]): segs = [("one", s[1]) for s in f[2][2:]]
            elif is_t(f, "range") and all(is_k(x) for x in f[2:5]) and len(range(kv(f[2]), kv(f[3]), kv(f[4]))) <= 8: segs = [("one", K(i)) for i in range(kv(f[2]), kv(f[3]), kv(f[4]))]
            elif is_t(f, "enumerate") and self.all_ones(f[2]) is not None and is_k(f[3]): segs = [("one", tup(K(i + kv(f[3])), x)) for i, x in enumerate(self.all_ones(f[2]))]
            elif is_t(f, "zip") and all(self.all_ones(x) is not None for x in f[2:]): segs = [("one", tup(*t)) for t in zip(*[self.all_ones(x) for x in f[2:]])]
            elif self.kind(f, st) == "dict": return [("dom", T("keys", f))]
            else: return [("dom", f)]
        if any(s[0] not in ("one", "spread", "acc") for s in segs) or any(s[0] == "acc" and not self.appended(s) for s in segs) or sum(1 for s in segs if s[0] == "one") > 40:
            return [("dom", self.freeze(st, it))]
        un = o is not None and o.kind == "set" and it[0] == "ref"
        return [("dom", T("set", s) if un else s[1]) if s[0] == "spread" else s for s in segs]

    def appended(self, seg):
        """the loop only appends to the collection: its elements are those of the turns, in order"""
        lp = self.loops[seg[1]]
        return lp.done and all(g[0] in ("one", "spread") or g[0] == "acc" and self.appended(g) for a in lp.alts for g in a.emits.get(seg[2], ()))

    def all_ones(self, f):
        if f[0] == "tup": return list(f[1:])
        if is_t(f, "list") and all(s[0] == "one" for s in f[2:]): return [s[1] for s in f[2:]]
        return None

    def iterate(self, st, it, assign, body, node, orelse=None):
        """run `body` for each element of `it`; yield (state, ctl)"""
        src = self.iter_source(st, it)
        def go(s, i):
            if i == len(src):
                if orelse: yield from orelse(s)
                else: yield s, None
                return
            x = src[i]
            if x[0] == "one":
                for s1, c in assign(s, x[1]):
                    if c: yield s1, c; continue
                    for s2, c2 in body(s1):
                        if c2 is None or c2[0] == "continue": yield from go(s2, i + 1)
                        elif c2[0] == "break": yield s2, None
                        else: yield s2, c2
                return
            if x[0] == "dom":
                gen = self.loop(s, x[1], assign, body, node)
            else:
                gen = self.fused(s, x, assign, body, node, self.kind(it, s) in ("oset", "set"))
            for s1, c in gen:
                if c == ("exhausted",): yield from go(s1, i + 1)
                elif c and c[0] == "break": yield s1, None
                else: yield s1, c
        yield from go(st, 0)

    def fused(self, st, seg, assign, body, node, uniq=False):
        """iterate over what an earlier loop collected: the loops are composed"""
        L1 = self.loops[seg[1]]; oid = seg[2]
        L = self.fresh()
        m = {idx(seg[1]): idx(L)}
        def body2(s, i):
            allowed = s.loops.get(seg[1], (None, None))[1]
            for k, alt in enumerate(L1.alts):
                if allowed is not None and k not in allowed: continue
                em = alt.emits.get(oid, ())
                mm = self.clone_map(alt, m)
                s1 = s.fork(); ok = True
                for a, t in alt.facts.items():
                    s2 = self.assume(s1, subst(a, mm), t)
                    if s2 is None: ok = False; break
                    s1 = s2.fork() if s2 is s1 else s2
                if not ok: continue
                for q, z in alt.loops.items():
                    nq = mm.get(("$L", q), q)
                    s1.loops[nq] = z
                s1.exists = s1.exists + tuple((mm.get(("$L", q), q), al) for q, al in alt.exists)
                def emit(s, j):
                    if j == len(em): yield s, None; return
                    g = em[j]
                    if g[0] == "one":
                        gen = ((s2, c2) for s1, c in assign(s, subst(g[1], mm)) for s2, c2 in ([(s1, c)] if c else body(s1)))
                    elif g[0] == "spread":
                        gen = self.iterate(s, subst(g[1], mm), assign, body, node)
                    elif g[0] == "acc":
                        gen = self.iterate(s, subst(T("list", g), mm), assign, body, node)
                    else:
                        s9 = s.fork(); s9.mark("iteration over " + g[0]); gen = iter([(s9, None)])
                    for s2, c2 in gen:
                        if c2 is None or c2[0] == "continue": yield from emit(s2, j + 1)
                        else: yield s2, c2
                yield from emit(s1, 0)
        yield from self.loop_core(st, L, L1.dom, body2, node, L1.seqs, uniq=uniq or L1.uniq)

    def clone_map(self, alt, m):
        """substitution for the loops nested in an alternative: fresh loop ids with substituted contents"""
        mm = dict(m)
        inner = [q for q in alt.loops]
        for q in inner:
            nq = self.fresh(); mm[("$L", q)] = nq; mm[idx(q)] = idx(nq)
        for q in inner:
            nq = mm[("$L", q)]; lp = self.loops[q]
            n = Loop(nq, subst(lp.dom, mm), lp.node, lp.func); n.done = True
            n.seqs = tuple(subst(x, mm) for x in lp.seqs); n.objs = lp.objs; n.entry = lp.entry; n.uniq = lp.uniq
            ren = lambda v: self.rename_loops(subst(v, mm), mm)
            n.phi_init = {k: ren(v) for k, v in lp.phi_init.items()}
            for a in lp.alts:
                b = Alt(); b.facts = {ren(k): t for k, t in a.facts.items()}; b.trace = a.trace; b.next = {k: ren(v) for k, v in a.next.items()}
                b.emits = {k: tuple(ren(x) for x in v) for k, v in a.emits.items()}; b.state = a.state; b.loops = a.loops; b.exists = a.exists; b.ctl = a.ctl; b.val = a.val
                n.alts.append(b)
            n.exits = lp.exits
            self.loops[nq] = n
        class M(dict): pass
        return mm if not inner else RenMap(self, mm)

    def rename_loops(self, v, mm):
        if not isinstance(v, tuple): return v
        if v and v[0] == "acc" and ("$L", v[1]) in mm: return ("acc", mm[("$L", v[1])]) + v[2:]
        if len(v) > 3 and v[0] == "t" and v[1] == "phi" and ("$L", v[2]) in mm: return ("t", "phi", mm[("$L", v[2])]) + tuple(self.rename_loops(x, mm) for x in v[3:])
        if v and v[0] == "k": return v
        return tuple(self.rename_loops(x, mm) if isinstance(x, tuple) else x for x in v)

    def loop(self, st, dom, assign, body, node):
        L = self.fresh()
        def b(s, i):
            e = self.elem(s, dom, i)
            for s1, c in assign(s, e):
                if c: yield s1, c
                else: yield from body(s1)
        yield from self.loop_core(st, L, dom, b, node, tuple(self.dom_seqs(dom)))

    def while_loop(self, st, n, orelse):
        L = self.fresh()
        def b(s, i):
            for s1, v in self.ev(s, n.test):
                if is_exc(v): yield s1, ("raise", v); continue
                for s2, t in self.branch(s1, v):
                    if t: yield from self.block(s2, n.body)
                    else: yield s2, ("wexit",)
        for s, c in self.loop_core(st, L, T("while"), b, n, (), is_while=True):
            if c == ("exhausted",):
                if orelse: yield from orelse(s)
                else: yield s, None
            elif c and c[0] == "break": yield s, None
            else: yield s, c

    def loop_core(self, st, L, dom, body, node, seqs, is_while=False, uniq=False):
        """fixpoint summary of a loop.  body(state, idx) yields (state, ctl) of one iteration.
        yields (state, ('exhausted',)) after the last element, (state, ('break',)), or return/raise."""
        lp = Loop(L, dom, node, self.frame_func.get(st.fid)); lp.done = False; lp.seqs = tuple(seqs); lp.uniq = uniq
        self.loops[L] = lp; lp.entry = st
        # an empty domain
        for q in seqs:
            if self.decide(st, ("truthy", q)) is False:
                lp.done = True; s = st.fork(); s.loops[L] = ("all", frozenset()); s.event("loop", dict(L=L, mode="all", facts=dict(s.facts))); yield s, ("exhausted",); return
        hav = {}        # name key -> init value  (('local', fid, name) / ('field', base, name))
        objs = {}       # object -> base segs
        replaced = set()
        for rnd in range(14):
            head = st.fork(); head.lstack = st.lstack + (L,)
            head.trace = (); head.loops = dict(st.loops); head.exists = ()
            lp.phi_init = {}
            for key, init in hav.items():
                if key[0] == "local": pname = key[2]; 
                else: pname = ("field", key[1], key[2])
                ph = T("phi", L, pname)
                lp.phi_init[pname] = self.freeze(st, init)
                k = self.typeof(init, st)
                if k and k != ("none",) and ph not in self.types: self.types[ph] = k
                if key[0] == "local": head.set(key[2], ph, key[1])
                else: head.fields[(key[1], key[2])] = ph
            for o, base in objs.items():
                ob = st.heap[o]
                head.heap[o] = ob.with_segs((("spread", T("phi", L, ("obj", o))),) if o in replaced and ob.kind != "dict" else (("update", T("phi", L, ("obj", o))),) if o in replaced else base + (("acc", L, o),))
            lp.objs = dict(objs)
            ends, exits, wex = [], [], []
            for s, c in body(head.fork(), idx(L)):
                if c is None or c[0] == "continue": ends.append(s)
                elif c[0] == "wexit": wex.append(s)
                else: exits.append((s, c))
                if len(ends) + len(exits) > 1500: raise TooComplex("too many paths through a loop")
            new = False
            for s in ends:
                for fid, fr in head.frames.items():
                    efr = s.frames.get(fid)
                    if efr is None or efr is fr: continue
                    for name, hv in fr.items():
                        ev = efr.get(name, hv)
                        if ev != hv and ("local", fid, name) not in hav:
                            hav[("local", fid, name)] = st.frames.get(fid, {}).get(name, hv); new = True
                for fk, hv in head.fields.items():
                    ev = s.fields.get(fk, hv)
                    if ev != hv and ("field",) + fk not in hav: hav[("field",) + fk] = st.fields[fk]; new = True
                for fk, ev in s.fields.items():
                    if fk not in head.fields and (fk[0][0] == "t" or fk[0] in st.heap) and ("field",) + fk not in hav:
                        if contains(fk[0], idx(L)): continue      # a field of the element itself
                        base, name = fk
                        init = T("attr", base, name)
                        st = st.fork(); st.fields[fk] = init; hav[("field",) + fk] = init; new = True
                for o, ob in head.heap.items():
                    eo = s.heap.get(o)
                    if eo is None or eo.segs == ob.segs: continue
                    if o not in objs: objs[o] = ob.segs; new = True
                    elif o not in replaced and eo.segs[:len(ob.segs)] != ob.segs: replaced.add(o); new = True
                for o, eo in s.heap.items():
                    if o not in head.heap and o[0] == "t" and not contains(o, idx(L)) and not self.mentions_new(o, st, s):
                        st = st.fork(); st.heap[o] = Obj(eo.kind, None, o, (("base", o),)); objs[o] = st.heap[o].segs; new = True
            if not new: break
        else:
            raise TooComplex("loop summary does not converge")
        # induction variables: x = x + 1 in every alternative, starting from a constant
        ren = {}
        for key, init in hav.items():
            if key[0] != "local": continue
            ph = T("phi", L, key[2])
            if not (is_k(init) and type(kv(init)) is int): continue
            if ends and all(self.freeze(s, s.frames[key[1]][key[2]]) == self.mk_int(ph, 1) for s in ends if key[1] in s.frames):
                ren[ph] = self.mk_int(idx(L), kv(init))
        lp.replaced = replaced
        base_facts = st.facts
        alts = []
        for s in ends: alts.append(self.make_alt(lp, head, s, hav, objs, replaced, None, None))
        lp.alts = alts
        der = self.derived(lp) if is_while else {}
        if der:
            for a in alts: self.subst_alt(a, der)
            for w in wex: self.subst_state(w, der)
            for x in exits: self.subst_state(x[0], der)
            exits = [(x, tuple(subst(y, der) if isinstance(y, tuple) else y for y in cc)) for x, cc in exits]
        if is_while and ren:
            # the loop test compares the induction variable with a length
            cands = set()
            for w in wex:
                for a, t in w.facts.items():
                    if a in base_facts: continue
                    r = self.renorm(subst(a, ren))
                    if r and r[0] == "lt" and r[1] == idx(L) and is_t(r[2], "len") and t is False: cands.add(r[2][2])
                    if r and r[0] == "lt" and r[2] == idx(L) and is_t(r[1], "bin") and r[1][2] == "+" and r[1][4] == K(-1) and is_t(r[1][3], "len") and t is True: cands.add(r[1][3][2])
            if len(cands) == 1 and len(wex) >= 1:
                S = cands.pop(); lp.seqs = (S,); lp.dom = S
            elif len(wex) == 1 and not lp.exits:
                # … or with another number that does not change in the loop
                bounds = set()
                for a, t in wex[0].facts.items():
                    if a in base_facts: continue
                    r = self.renorm(subst(a, ren))
                    if not r or r[0] != "lt": continue
                    if t is False and self.norm_int(r[1])[0] == idx(L): bounds.add(self.mk_int(r[2], -self.norm_int(r[1])[1]))
                    elif t is True and r[2] == idx(L): bounds.add(self.mk_int(r[1], 1))
                bounds = {b for b in bounds if not contains(b, idx(L)) and not any(is_t(y, "phi") and y[2] == L for y in subterms(b))}
                if len(bounds) == 1: lp.dom = T("range", K(0), bounds.pop(), K(1))
        if is_while and lp.dom == T("while"): lp.opaque = True
        final = {}
        if ren:
            self.subst_loop(lp, ren)
            fin = lp.seqs[0] if lp.seqs else None
            for ph, v in ren.items():
                n = v[4] if is_t(v, "bin") else K(0)
                final[ph] = (self.mk_int(T("len", fin), kv(n)) if fin is not None else T("count", L))
        lp.done = True
        nm = frozenset(range(len(alts)))
        # normal exhaustion
        pre = st.trace
        if not is_while:
            s = head.fork(); s.lstack = st.lstack; s.trace = pre; s.exists = st.exists
            s.loops = dict(st.loops); s.loops[L] = ("all", nm)
            # variables first bound in the loop
            for e in ends:
                for fid, fr in e.frames.items():
                    if fid not in s.frames: continue
                    for name in fr:
                        if name not in s.frames[fid] and not name.startswith("$"):
                            lv = T("last", L, name)
                            t = self.typeof(fr[name], e)
                            if t and lv not in self.types: self.types[lv] = t
                            s.set(name, lv, fid)
            s.event("loop", dict(L=L, mode="all", facts=dict(st.facts)))
            if final: self.subst_state(s, final)
            # appending each element itself, in every turn, is appending the whole sequence
            for o in objs:
                if o in replaced or not lp.alts or s.heap[o].kind not in ("list", "set", "oset"): continue
                if all(a.emits.get(o) == (("one", T("item", dom, idx(L))),) for a in lp.alts) and s.heap[o].segs[-1:] == (("acc", L, o),):
                    s.heap[o] = s.heap[o].with_segs(s.heap[o].segs[:-1] + (("spread", dom),))
            yield s, ("exhausted",)
        for w in wex:
            s = w.fork(); s.lstack = st.lstack
            own = s.trace; s.trace = pre; s.exists = st.exists + w.exists
            s.loops[L] = ("all", nm)
            s.event("loop", dict(L=L, mode="all", facts=dict(st.facts))); s.trace = s.trace + own
            if ren: 
                for a in [a for a in s.facts if a not in base_facts and any(contains(a, p) for p in ren)]: del s.facts[a]
                self.subst_state(s, final or ren)
            yield s, ("exhausted",)
        for s0, c in exits:
            lp.exits.append(self.make_alt(lp, head, s0, hav, objs, replaced, c, None))
            s = s0.fork(); s.lstack = st.lstack
            own = s.trace; s.trace = pre; s.exists = st.exists + s0.exists
            s.loops[L] = ("prefix", nm)
            s.event("loop", dict(L=L, mode="prefix", facts=dict(st.facts)))
            s.trace = s.trace + own
            if ren:
                self.subst_state(s, ren)
                c = tuple(subst(x, ren) if isinstance(x, tuple) else x for x in c)
            yield s, c

    def derived(self, lp):
        """a loop variable that is, at the start of every turn, the same call on another loop variable
        (the call before the loop is repeated at the end of each turn): {variable: call}"""
        out = {}
        def strip(v):
            k = ()
            while is_t(v, "item") and is_k(v[3]): k = (v[3],) + k; v = v[2]
            return v, k
        def bare(v): return v[:6] if is_t(v, "call") else v
        for name, init in lp.phi_init.items():
            call, k = strip(init)
            if not is_t(call, "call") or not lp.alts: continue
            for q, q0 in lp.phi_init.items():
                if q == name or T("phi", lp.L, q) in out or q0 not in call[4] or isinstance(q, tuple) or isinstance(name, tuple): continue
                def at(x): return tuple(x if a == q0 else a for a in call[4])
                ok = True; last = None
                for a in lp.alts:
                    qn = a.next.get(q, T("phi", lp.L, q)); pn = a.next.get(name)
                    c2, k2 = strip(pn) if pn is not None else (None, None)
                    if k2 != k or not is_t(c2, "call") or c2[2:4] + c2[5:6] != call[2:4] + call[5:6] or c2[4] != at(qn): ok = False; break
                    last = c2
                if not ok: continue
                r = call[:4] + (at(T("phi", lp.L, q)),) + last[5:]
                for x in k: r = T("item", r, x)
                ph = T("phi", lp.L, name)
                if ph in self.types: self.types.setdefault(r, self.types[ph])
                out[ph] = r
                break
        return out

    def mentions_new(self, o, st, s):
        return any(x[0] == "ref" and x not in st.heap for x in subterms(o))

    def renorm(self, atom):
        if atom[0] == "lt":
            (a, k), (b, m) = self.norm_int(atom[1]), self.norm_int(atom[2])
            return ("lt", self.mk_int(a, k - m) if a is not None else K(k - m), b if b is not None else K(0)) if b is not None else atom
        return atom

    def make_alt(self, lp, head, s, hav, objs, replaced, ctl, val):
        a = Alt(); a.facts = {k: t for k, t in s.facts.items() if head.facts.get(k) is None}
        a.trace = s.trace; a.state = s; a.ctl = ctl; a.val = val
        a.loops = {q: z for q, z in s.loops.items() if q not in head.loops}; a.exists = s.exists
        a.next = {}
        for key in hav:
            if key[0] == "local":
                if key[1] in s.frames: a.next[key[2]] = self.freeze(s, s.frames[key[1]].get(key[2], NONE))
            else: a.next[("field", key[1], key[2])] = self.freeze(s, s.fields.get((key[1], key[2]), NONE))
        a.emits = {}
        for o in objs:
            eo = s.heap.get(o)
            if eo is None: continue
            if o in replaced: a.next[("obj", o)] = self.freeze(s, o); continue
            n = len(head.heap[o].segs)
            a.emits[o] = tuple(self.freeze_seg(s, g, 0, ()) for g in eo.segs[n:])
        return a

    def subst_loop(self, lp, m):
        for a in lp.alts + lp.exits: self.subst_alt(a, m)
        lp.dom = subst(lp.dom, m)

    def subst_alt(self, a, m):
        a.facts = self.subst_facts(a.facts, m)
        a.next = {k: subst(v, m) for k, v in a.next.items()}
        a.emits = {k: tuple(subst(x, m) for x in v) for k, v in a.emits.items()}
        st = a.state
        if st is not None: st = st.fork(); self.subst_state(st, m); a.state = st; a.trace = st.trace
        for q in a.loops:
            self.subst_inner(q, m)

    def subst_inner(self, q, m):
        lp = self.loops.get(q)
        if lp is None: return
        lp.dom = subst(lp.dom, m); lp.seqs = tuple(subst(x, m) for x in lp.seqs)
        lp.phi_init = {k: subst(v, m) for k, v in lp.phi_init.items()}
        for a in lp.alts + lp.exits: self.subst_alt(a, m)

    def subst_facts(self, facts, m):
        """a substitution in facts: comparisons of numbers keep their normal form"""
        out = {}
        for k, t in facts.items():
            a = subst(k, m)
            if a != k and a[0] == "lt":
                v = self.mk_cmp(State(), "lt", a[1], a[2])
                if is_t(v, "bool"): a, t = v[2], t == v[3]
            out[a] = t
        return out

    def subst_state(self, s, m):
        def sv(v):
            for p, q in m.items():
                t = self.types.get(v)
            r = subst(v, m)
            if r is not v and v in self.types and r not in self.types: self.types[r] = self.types[v]
            return r
        for k in s.facts: sv(k)
        s.facts = self.subst_facts(s.facts, m)
        s.frames = {f: {n: (sv(v) if isinstance(v, tuple) and v[0] != "ctl" else v) for n, v in fr.items()} for f, fr in s.frames.items()}
        s.heap = {sv(k): Obj(o.kind, o.cls, sv(o.base) if o.base else o.base, tuple(subst(g, m) for g in o.segs)) for k, o in s.heap.items()}
        s.fields = {(sv(b), n): sv(v) for (b, n), v in s.fields.items()}
        s.trace = tuple(self.subst_event(e, m) for e in s.trace)
        s.lstack = s.lstack

    def subst_event(self, e, m):
        d = {}
        for k, v in e.d.items():
            if k == "facts": d[k] = self.subst_facts(v, m)
            elif k == "kwargs": d[k] = {a: subst(x, m) for a, x in v.items()}
            elif isinstance(v, tuple): d[k] = subst(v, m)
            else: d[k] = v
        return Event(e.kind, d)


class RenMap(dict):
    """substitution that also renames nested loop references"""
    def __init__(self, eng, mm): super().__init__(mm); self.eng = eng
    def __contains__(self, v):
        if dict.__contains__(self, v): return True
        if isinstance(v, tuple) and v and v[0] == "acc" and dict.__contains__(self, ("$L", v[1])): return True
        if isinstance(v, tuple) and len(v) > 3 and v[0] == "t" and v[1] == "phi" and dict.__contains__(self, ("$L", v[2])): return True
        return False
    def __getitem__(self, v):
        if dict.__contains__(self, v): return dict.__getitem__(self, v)
        return self.eng.rename_loops(v, self)
