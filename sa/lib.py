"""Models of Python's builtins, container methods and the library functions the program uses."""
import ast
from .absint import *
from .interp import Interp

STR_RET = {"lower", "upper", "strip", "lstrip", "rstrip", "replace", "format", "title", "capitalize", "casefold", "zfill", "join", "removeprefix", "removesuffix", "hexdigest", "expandtabs", "translate"}
LIST_RET = {"split", "rsplit", "splitlines", "partition", "rpartition"}
BOOL_RET = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "isidentifier", "isupper", "islower", "isnumeric", "isdecimal"}
INT_RET = {"find", "rfind", "index", "count"}
LIST_M = {"append", "extend", "insert", "pop", "remove", "clear", "copy", "index", "count", "sort", "reverse"}
SET_M = {"add", "discard", "remove", "update", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "copy", "pop", "clear", "intersection_update", "difference_update"}
DICT_M = {"get", "items", "keys", "values", "copy", "update", "pop", "setdefault", "clear", "popitem", "fromkeys"}
MUTATORS = {"append", "extend", "insert", "add", "discard", "setdefault", "sort", "reverse", "popitem", "intersection_update", "difference_update", "appendleft", "popleft", "extendleft"}


def format_parts(fmt, args, kwargs):
    """parts of fmt.format(..): constants and [value]; None when it has format specifications"""
    import string
    out = []; auto = 0
    try:
        for lit, field, spec_, conv in string.Formatter().parse(fmt):
            if lit: out.append(K(lit))
            if field is None: continue
            if spec_ or conv: return None
            if field == "": field = auto; auto += 1
            elif field.isdigit(): field = int(field)
            v = args[field] if isinstance(field, int) else kwargs[field]
            out.append([v])
    except (ValueError, IndexError, KeyError): return None
    return out


class Machine(Interp):

    # ------------------------------------------------------------ helpers
    def pure(self, st, name, recv, args, ret=None, kw=()):
        v = T("call", name, recv, tuple(args), tuple(kw), 0)
        if ret and v not in self.types: self.types[v] = ret
        return v

    def typed(self, v, t):
        if t and v not in self.types: self.types[v] = t
        return v

    def elem_type(self, st, v):
        t = self.typeof(v, st)
        if t and t[0] in ("list", "set", "oset") and len(t) > 1: return t[1]
        if t and t[0] == "dict" and len(t) > 1: return t[1]
        return None

    def to_coll(self, st, kind, v, node):
        """list(v) / set(v) / OrderedSet(v) / tuple(v)"""
        s = st.fork()
        if kind == "tuple":
            if v[0] == "tup": yield s, v; return
            segs = self.iter_segs(s, v)
            if all(g[0] == "one" for g in segs): yield s, ("tup",) + tuple(g[1] for g in segs); return
            yield s, T("tupof", self.freeze(s, v)); return
        if self.kind(v, s) == "dict" or (v in s.heap and s.heap[v].kind == "dict"):
            v = T("keys", self.freeze(s, v))
        if is_t(v, "iter"): v = v[2]
        segs = self.iter_segs(s, v)
        if kind == "list" and len(segs) == 1 and segs[0][0] == "spread" and is_t(segs[0][1]) and segs[0][1][1] in ("zip", "enumerate", "items", "values", "reversed"):
            pass
        yield s, self.new_obj(s, kind, segs)

    def mut_event(self, st, target, op, args, node):
        st.event("mutate", dict(target=target, op=op, args=tuple(self.freeze(st, a) for a in args), raw=tuple(args), node=node, func=self.frame_func.get(st.fid), facts=dict(st.facts), loops=dict(st.loops), stack=st.stack))

    # ------------------------------------------------------------ comprehension-like builtins
    def lazy_comp(self, st, n, hit):
        """run generator expression n; hit(state, value) yields (state, None to go on | ctl to stop)"""
        class N: pass
        def emit(s, r):
            for s1, v in self.ev(s, n.elt):
                if is_exc(v): yield s1, ("raise", v); continue
                yield from hit(s1, v)
        yield from self.comp_ctl(st, n, emit)

    def comp_ctl(self, st, n, emit):
        fid0 = st.fid
        f2 = self.fresh(); self.frame_parent[f2] = fid0; self.frame_mod[f2] = self.frame_mod.get(fid0); self.frame_func[f2] = self.frame_func.get(fid0)
        s0 = st.fork(); s0.frames[f2] = {}; s0.fid = f2
        gens = n.generators
        def level(i):
            def body(s):
                def conds(s, j):
                    if j == len(gens[i].ifs):
                        if i + 1 < len(gens): yield from loop_at(s, i + 1)
                        else: yield from emit(s, None)
                        return
                    for s1, v in self.ev(s, gens[i].ifs[j]):
                        if is_exc(v): yield s1, ("raise", v); continue
                        for s2, b in self.branch(s1, v):
                            if b: yield from conds(s2, j + 1)
                            else: yield s2, None
                yield from conds(s, 0)
            return body
        def loop_at(s, i):
            if i == 0: s = s.fork(); s.fid = fid0
            for s1, it in self.ev(s, gens[i].iter):
                s1 = s1.fork(); s1.fid = f2
                if is_exc(it): yield s1, ("raise", it); continue
                yield from self.iterate(s1, it, lambda s, v, i=i: self.assign_target(s, gens[i].target, v), level(i), n)
        for s, ctl in loop_at(s0, 0):
            s = s.fork(); s.fid = fid0
            if f2 not in self.captured: s.frames.pop(f2, None)
            yield s, ctl

    def ev_Call(self, st, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "next", "sum", "min", "max") and n.args and isinstance(n.args[0], (ast.GeneratorExp,) if n.func.id in ("next",) else (ast.GeneratorExp, ast.ListComp)) and not n.keywords:
            fs = list(self.lookup_name(st, n.func.id, n))
            if len(fs) == 1 and fs[0][1] == ("bi", n.func.id):
                name = n.func.id
                if name in ("any", "all"):
                    def hit(s, v):
                        for s1, b in self.branch(s, v):
                            if b == (name == "any"): yield s1, ("return", K(name == "any"))
                            else: yield s1, None
                    for s, c in self.lazy_comp(st, n.args[0], hit):
                        if c is None: yield s, K(name != "any")
                        else: yield s, c[1]
                    return
                if name == "next":
                    def hit(s, v): yield s, ("return", v)
                    for s, c in self.lazy_comp(st, n.args[0], hit):
                        if c is not None: yield s, c[1]
                        elif len(n.args) > 1: yield from self.ev(s, n.args[1])
                        else: yield s, self.exc("StopIteration", None, "implicit", n)
                    return
        yield from super().ev_Call(st, n)

    # ------------------------------------------------------------ calls on unknown receivers
    def getter(self, st, f, x, node):
        def one(s, k):
            if f[1] == "itemgetter": yield from self.getitem(s, x, k, node); return
            def go(s, v, names):
                if not names: yield s, v; return
                for s1, w in self.getattr_(s, v, names[0], node):
                    if is_exc(w): yield s1, w
                    else: yield from go(s1, w, names[1:])
            yield from go(s, x, kv(k).split("."))
        def all_(s, ks, got):
            if not ks: yield s, got[0] if len(f[2]) == 1 else ("tup",) + tuple(got); return
            for s1, v in one(s, ks[0]):
                if is_exc(v): yield s1, v
                else: yield from all_(s1, ks[1:], got + [v])
        yield from all_(st, f[2], [])

    def call(self, st, f, args, kwargs, node):
        if f[0] == "getter" and len(args) == 1 and (f[1] == "itemgetter" or all(is_k(k) for k in f[2])):
            yield from self.getter(st, f, args[0], node); return
        if is_t(f, "attr"):
            base, name = f[2], f[3]
            k = self.kind(base, st)
            if k is None and not is_t(base, "unk"):
                if name in MUTATORS or (name in ("update", "pop", "remove", "clear") and base in st.heap):
                    yield from self.bmethod(st, base, name, args, kwargs, node); return
                if name in ("items", "keys", "values") and not args or (name == "get" and 1 <= len(args) <= 2 and not kwargs and self.container_like(st, base)):
                    yield from self.bmethod(st, base, name, args, kwargs, node); return
                if name in STR_RET | LIST_RET | BOOL_RET and name not in ("format", "translate"):
                    yield from self.str_method(st, base, name, args, kwargs, node); return
                if name == "copy" and not args:
                    yield st, self.pure(st, "copy", self.freeze(st, base), []); return
        yield from super().call(st, f, args, kwargs, node)

    def container_like(self, st, base):
        return base in st.heap or (is_t(base) and base[1] in ("item", "param", "phi", "global"))

    # ------------------------------------------------------------ builtins
    def builtin(self, st, name, args, kwargs, node):
        m = getattr(self, "bi_" + name, None)
        if m is not None:
            yield from m(st, args, kwargs, node); return
        if name in ("print", "input", "open", "exec", "eval", "setattr", "delattr"):
            yield from self.opaque_call(st, name, None, args, kwargs, node); return
        yield st, self.pure(st, name, None, [self.freeze(st, a) for a in args], kw=sorted((k, self.freeze(st, v)) for k, v in kwargs.items()))

    def bi_len(self, st, args, kw, node):
        v = args[0]
        if v[0] == "tup": yield st, K(len(v) - 1); return
        if is_k(v):
            try: yield st, K(len(kv(v)))
            except TypeError: yield st, self.exc("TypeError", None, "implicit", node)
            return
        o = st.heap.get(v)
        if o is not None and v[0] == "ref":
            if o.kind == "inst":
                c = self.prog.classes.get(o.cls); m = c.find("__len__") if c else None
                if m: yield from self.inline(st, m, [v], {}, node, None); return
            if o.kind in ("list",) and all(s[0] == "one" for s in o.segs): yield st, K(len(o.segs)); return
            if o.kind == "dict" and all(s[0] == "put" and is_k(s[1]) for s in o.segs): yield st, K(len(o.segs)); return
            if not o.segs: yield st, K(0); return
        f = self.freeze(st, v)
        if is_t(f) and f[1] in ("sorted", "reversed", "keys", "values", "items", "enumerate") : f = f[2]
        if is_t(f, "list") and all(g[0] == "one" for g in f[2:]): yield st, K(len(f) - 2); return
        if is_t(f, "tupof"): f = f[2]
        # a list built by exactly one emission per iteration is as long as what was iterated
        if is_t(f) and f[1] == "list" and len(f) == 3 and f[2][0] == "acc":
            lp = self.loops.get(f[2][1]); mode, al = st.loops.get(f[2][1], (None, None))
            if lp and lp.seqs and mode == "all" and lp.alts and all(len(a.emits.get(f[2][2], ())) == 1 and a.emits[f[2][2]][0][0] == "one" for a in lp.alts):
                f = lp.seqs[0]
        yield st, T("len", f)

    def bi_isinstance(self, st, args, kw, node):
        v, c = args
        cs = list(c[1:]) if c[0] == "tup" else [c]
        flat = []
        for x in cs: flat += list(x[1:]) if x[0] == "tup" else [x]
        fv = self.freeze(st, v)
        res = []
        for x in flat:
            nm = x[1] if x[0] in ("cls", "bi", "ext") else None
            if nm is None:
                s = st.fork(); yield s, self.unk(s, "isinstance of a computed class"); return
            atom = ("isinst", fv, nm)
            d = None
            o = st.heap.get(v)
            if o is not None and v[0] == "ref":
                d = self.sub(o.cls if o.kind == "inst" else {"oset": "OrderedSet"}.get(o.kind, o.kind), nm)
                if o.kind == "oset": d = nm.endswith("OrderedSet") or nm in ("object",)
            if d is None: d = self.decide(st, atom)
            if d is True: yield st, TRUE; return
            if d is None: res.append(atom_val(atom))
        if not res: yield st, FALSE
        elif len(res) == 1: yield st, res[0]
        else: yield st, T("anyof", *res)

    def bi_callable(self, st, args, kw, node):
        f = self.freeze(st, args[0]); d = self.decide(st, ("callable", f))
        yield st, K(d) if d is not None else atom_val(("callable", f))

    def bi_bool(self, st, args, kw, node):
        yield st, self.truth_value(st, args[0]) if args else FALSE

    def bi_str(self, st, args, kw, node):
        if not args: yield st, K(""); return
        v = args[0]
        if is_k(v): yield st, K(str(kv(v))); return
        if self.kind(v, st) == "str": yield st, v; return
        yield st, T("str", self.freeze(st, v))

    def bi_int(self, st, args, kw, node):
        if not args: yield st, K(0); return
        v = args[0]
        if is_k(v) and len(args) == 1:
            try: yield st, K(int(kv(v)))
            except Exception: yield st, self.exc("ValueError", None, "implicit", node)
            return
        if self.kind(v, st) == "int": yield st, v; return
        if st.raising: yield st, self.exc("ValueError", None, "implicit", node)
        yield st, self.pure(st, "int", None, [self.freeze(st, v)], ("int",))

    def bi_float(self, st, args, kw, node):
        if not args: yield st, K(0.0); return
        if is_k(args[0]):
            try: yield st, K(float(kv(args[0])))
            except Exception: yield st, self.exc("ValueError", None, "implicit", node)
            return
        if st.raising: yield st, self.exc("ValueError", None, "implicit", node)
        yield st, self.pure(st, "float", None, [self.freeze(st, args[0])], ("float",))

    def bi_list(self, st, args, kw, node):
        if not args: s = st.fork(); yield s, self.new_obj(s, "list"); return
        yield from self.to_coll(st, "list", args[0], node)

    def bi_set(self, st, args, kw, node):
        if not args: s = st.fork(); yield s, self.new_obj(s, "set"); return
        yield from self.to_coll(st, "set", args[0], node)
    bi_frozenset = bi_set

    def bi_tuple(self, st, args, kw, node):
        if not args: yield st, tup(); return
        yield from self.to_coll(st, "tuple", args[0], node)

    def bi_dict(self, st, args, kw, node):
        s = st.fork(); r = self.new_obj(s, "dict")
        def fin(s):
            s = s.fork()
            for k, v in kw.items(): self.dict_put(s, r, K(k), v)
            return s, r
        if not args: yield fin(s); return
        v = args[0]
        k = self.kind(v, s)
        if k == "dict" or (k is None and not is_t(v, "zip") and v[0] != "tup"):
            self.dict_update(s, r, v); yield fin(s); return
        def assign(s, x): 
            s = s.fork(); s.set("$pair", x); yield s, None
        def body(s):
            x = s.frames[s.fid]["$pair"]
            for s1, a in self.getitem(s, x, K(0)):
                for s2, b in self.getitem(s1, x, K(1)):
                    s2 = s2.fork(); self.dict_put(s2, r, a, b); yield s2, None
        for s1, c in self.iterate(s, v, assign, body, node):
            if c: yield s1, c[1]
            else: yield fin(s1)

    def keyterm(self, st, fn):
        """description of a key function: its value on a generic element"""
        if fn is None or fn == NONE: return NONE
        e = T("param", "$e"); 
        s = st.fork(); s.trace = ()
        outs = [(s1, v) for s1, v in self.call(s, fn, [e], {}, None)]
        if len(outs) == 1: return self.freeze(outs[0][0], outs[0][1])
        return T("cases", *[("tup", self.freeze(s1, v)) for s1, v in outs])

    def bi_sorted(self, st, args, kw, node):
        et = self.elem_type(st, args[0])
        f = self.freeze(st, args[0])
        if et and T("param", "$e") not in self.types: pass
        save = self.types.get(T("param", "$e"))
        if et: self.types[T("param", "$e")] = et
        k = self.keyterm(st, kw.get("key"))
        if save: self.types[T("param", "$e")] = save
        else: self.types.pop(T("param", "$e"), None)
        rev = kw.get("reverse", FALSE)
        v = T("sorted", f, k, self.freeze(st, rev))
        if et: self.typed(v, ("list", et))
        s = st.fork()
        s.event("sorted", dict(value=v, node=node, func=self.frame_func.get(s.fid), facts=dict(s.facts)))
        yield s, v

    def bi_reversed(self, st, args, kw, node):
        f = self.freeze(st, args[0])
        o = self.all_ones(f)
        if o is not None:
            s = st.fork(); yield s, self.new_obj(s, "list", [("one", x) for x in reversed(o)]); return
        if is_t(f, "reversed"): yield st, f[2]; return
        yield st, T("reversed", f)

    def bi_enumerate(self, st, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get("start", K(0))
        yield st, T("enumerate", self.freeze(st, args[0]), self.freeze(st, start))

    def bi_zip(self, st, args, kw, node):
        yield st, T("zip", *[self.freeze(st, a) for a in args])

    def bi_range(self, st, args, kw, node):
        a = [self.freeze(st, x) for x in args]
        if len(a) == 1: a = [K(0), a[0], K(1)]
        elif len(a) == 2: a = a + [K(1)]
        yield st, T("range", *a)

    def anyall(self, st, args, node, isany):
        def assign(s, x):
            s = s.fork(); s.set("$e", x); yield s, None
        def body(s):
            for s1, b in self.branch(s, s.frames[s.fid]["$e"]):
                yield s1, ("return", K(isany)) if b == isany else None
        for s, c in self.iterate(st, args[0], assign, body, node):
            yield s, (c[1] if c else K(not isany))

    def bi_any(self, st, args, kw, node): yield from self.anyall(st, args, node, True)
    def bi_all(self, st, args, kw, node): yield from self.anyall(st, args, node, False)

    def bi_sum(self, st, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get("start", K(0))
        f = self.freeze(st, args[0])
        o = self.all_ones(f)
        if o is not None and len(o) <= 8:
            def go(s, acc, i):
                if i == len(o): yield s, acc; return
                for s1, v in self.binop(s, "+", acc, o[i], node): yield from go(s1, v, i + 1)
            yield from go(st, start, 0); return
        yield st, T("sum", f, self.freeze(st, start))

    def minmax(self, st, args, kw, node, name):
        if len(args) > 1: 
            yield st, T("extremum", name, T("list", *[("one", self.freeze(st, a)) for a in args]), self.keyterm(st, kw.get("key")), NONE); return
        f = self.freeze(st, args[0])
        d = kw.get("default")
        if is_t(f, "list") and len(f) == 2:
            if d is not None: yield st, d
            else: yield st, self.exc("ValueError", None, "implicit", node)
            return
        v = T("extremum", name, f, self.keyterm(st, kw.get("key")), NONE)
        et = self.elem_type(st, args[0])
        if et: self.typed(v, et)
        for s, b in self.branch(st, atom_val(("truthy", f))):
            if b: yield s, v
            elif d is not None: yield s, d
            else: yield s, self.exc("ValueError", None, "implicit", node)

    def bi_min(self, st, args, kw, node): yield from self.minmax(st, args, kw, node, "min")
    def bi_max(self, st, args, kw, node): yield from self.minmax(st, args, kw, node, "max")

    def bi_iter(self, st, args, kw, node): 
        yield st, T("iter", args[0] if args[0][0] == "ref" else self.freeze(st, args[0]))

    def bi_next(self, st, args, kw, node):
        it = args[0]
        src = it[2] if is_t(it, "iter") else it
        if is_t(src, "map_lazy"): src = src[2]
        # first element: iterate and stop at once
        if is_t(it, "iter") or (src[0] == "ref" and src in st.heap) or (is_t(src) and src[1] in ("items", "values", "keys", "zip", "enumerate")):
            def assign(s, x):
                s = s.fork(); s.set("$e", x); yield s, None
            def body(s): yield s, ("return", s.frames[s.fid]["$e"])
            for s, c in self.iterate(st, src, assign, body, node):
                if c: yield s, c[1]
                elif len(args) > 1: yield s, args[1]
                else: yield s, self.exc("StopIteration", None, "implicit", node)
            return
        yield from self.opaque_call(st, "next", None, args, kw, node)

    def bi_map(self, st, args, kw, node):
        s0 = st.fork(); r = self.new_obj(s0, "list")
        if len(args) != 2:
            src = T("zip", *[self.freeze(s0, a) for a in args[1:]])
        else: src = args[1]
        def assign(s, x):
            s = s.fork(); s.set("$e", x); yield s, None
        def body(s):
            x = s.frames[s.fid]["$e"]
            a = [x] if len(args) == 2 else list(x[1:])
            for s1, v in self.call(s, args[0], a, {}, node):
                if is_exc(v): yield s1, ("raise", v); continue
                s2 = s1.fork(); o = s2.heap[r]; s2.heap[r] = o.with_segs(o.segs + (("one", v),)); yield s2, None
        for s, c in self.iterate(s0, src, assign, body, node):
            yield s, (c[1] if c else r)

    def bi_filter(self, st, args, kw, node):
        s0 = st.fork(); r = self.new_obj(s0, "list")
        def assign(s, x):
            s = s.fork(); s.set("$e", x); yield s, None
        def body(s):
            x = s.frames[s.fid]["$e"]
            for s1, v in (self.call(s, args[0], [x], {}, node) if args[0] != NONE else [(s, x)]):
                if is_exc(v): yield s1, ("raise", v); continue
                for s2, b in self.branch(s1, v):
                    if b:
                        s2 = s2.fork(); o = s2.heap[r]; s2.heap[r] = o.with_segs(o.segs + (("one", x),))
                    yield s2, None
        for s, c in self.iterate(s0, args[1], assign, body, node):
            yield s, (c[1] if c else r)

    def bi_getattr(self, st, args, kw, node):
        if len(args) >= 2 and is_k(args[1]):
            yield from self.getattr_(st, args[0], kv(args[1]), node); return
        yield st, self.pure(st, "getattr", None, [self.freeze(st, a) for a in args])

    def bi_hasattr(self, st, args, kw, node):
        v = args[0]
        t = self.typeof(v, st)
        if t and t[0] == "cls" and is_k(args[1]):
            c = self.prog.classes.get(t[1])
            if c and (c.find(kv(args[1])) or any(kv(args[1]) in k.init_ann() or kv(args[1]) in k.ann for k in c.mro())): yield st, TRUE; return
        yield st, atom_val(("truthy", self.pure(st, "hasattr", None, [self.freeze(st, a) for a in args])))

    def bi_type(self, st, args, kw, node):
        v = args[0]
        if is_k(v): yield st, ("cls" if False else "bi", v[1]); return
        o = st.heap.get(v)
        if v[0] == "ref" and o: 
            yield st, (("cls", o.cls) if o.kind == "inst" else ("bi", o.kind)); return
        if v[0] == "tup": yield st, ("bi", "tuple"); return
        yield st, T("type", self.freeze(st, v))

    def bi_abs(self, st, args, kw, node):
        if is_k(args[0]): yield st, K(abs(kv(args[0]))); return
        yield st, self.pure(st, "abs", None, [self.freeze(st, args[0])])

    def bi_issubclass(self, st, args, kw, node):
        yield st, atom_val(("truthy", self.pure(st, "issubclass", None, [self.freeze(st, a) for a in args])))

    # ------------------------------------------------------------ methods of built-in types
    def bmethod(self, st, base, name, args, kwargs, node):
        """yield (state, value)"""
        if base == ("bi", "dict") and name == "fromkeys" or base[0] == "bi" and name == "fromkeys":
            s = st.fork(); r = self.new_obj(s, "dict"); val = args[1] if len(args) > 1 else NONE
            def assign(s, x): 
                s = s.fork(); s.set("$e", x); yield s, None
            def body(s):
                s = s.fork(); self.dict_put(s, r, s.frames[s.fid]["$e"], val); yield s, None
            for s1, c in self.iterate(s, args[0], assign, body, node): yield s1, (c[1] if c else r)
            return
        if base[0] == "bi":
            # unbound method: str.lower(x)
            if args:
                yield from self.bmethod(st, args[0], name, args[1:], kwargs, node); return
        if is_t(base, "superobj"):
            yield from self.opaque_call(st, "super." + name, base[2], args, kwargs, node); return
        o = st.heap.get(base)
        k = o.kind if o is not None else self.kind(base, st)
        if base[0] == "tup": k = "tuple"
        if is_k(base): k = base[1]
        if k is None:
            if name in ("append", "extend", "insert", "sort", "reverse", "popleft", "appendleft"): k = "list"
            elif name in ("add", "discard"): k = "set"
            elif name in ("setdefault", "items", "keys", "values", "get", "popitem"): k = "dict"
            elif name in ("update", "pop", "remove", "clear", "copy"): k = "list" if name == "remove" else "dict"
        if k in ("str", "bytes"):
            yield from self.str_method(st, base, name, args, kwargs, node); return
        if k == "list": yield from self.list_method(st, base, name, args, kwargs, node); return
        if k in ("set", "oset"): yield from self.set_method(st, base, name, args, kwargs, node, k); return
        if k == "dict": yield from self.dict_method(st, base, name, args, kwargs, node); return
        if k == "tuple" and name in ("index", "count"):
            yield st, self.pure(st, name, self.freeze(st, base), [self.freeze(st, a) for a in args], ("int",)); return
        yield from self.opaque_call(st, name, base, args, kwargs, node)

    def text_of(self, st, ps):
        r = self.mk_str(st, [p if not isinstance(p, list) else p[0] if self.kind(p[0], st) == "str" else K(str(kv(p[0]))) if is_k(p[0]) else T("str", self.freeze(st, p[0])) for p in ps])
        return r if is_k(r) or is_t(r, "fstr") or self.kind(r, st) == "str" else T("fstr", r)

    def str_method(self, st, base, name, args, kwargs, node):
        if is_k(base) and all(is_k(a) for a in args) and not kwargs and name in PURE_STR:
            try:
                r = getattr(kv(base), name)(*[kv(a) for a in args])
                if isinstance(r, list): s = st.fork(); yield s, self.new_obj(s, "list", [("one", K(x)) for x in r]); return
                if not isinstance(r, tuple): yield st, K(r); return
            except Exception: pass
        fb = self.freeze(st, base); fa = [self.freeze(st, a) for a in args]
        if name == "join" and len(fa) == 1:
            ones = self.all_ones(fa[0])
            if ones is not None and len(ones) <= 12:
                parts = []
                for i, x in enumerate(ones):
                    if i: parts.append(base)
                    parts.append(x)
                v = self.mk_str(st, parts)
                yield st, v; return
            yield st, T("join", fb, fa[0]); return
        if name == "format" and is_k(base) and isinstance(kv(base), str):
            ps = format_parts(kv(base), args, kwargs)
            if ps is not None: yield st, self.text_of(st, ps); return
        ret = ("str",) if name in STR_RET else ("list", ("str",)) if name in LIST_RET else ("bool",) if name in BOOL_RET else ("int",) if name in INT_RET else None
        v = self.pure(st, name, fb, fa, ret, sorted((k, self.freeze(st, x)) for k, x in kwargs.items()))
        if name in BOOL_RET: yield st, atom_val(("truthy", v)); return
        if name == "index" and st.raising: yield st, self.exc("ValueError", None, "implicit", node)
        yield st, v

    def list_method(self, st, base, name, args, kwargs, node):
        s = st.fork()
        o = self.ensure(s, base, "list")
        segs = o.segs
        def done(segs, v=NONE, op=name):
            s.heap[base] = o.with_segs(segs); self.mut_event(s, base, op, args, node)
            return s, v
        if name == "append": yield done(segs + (("one", args[0]),)); return
        if name == "extend":
            yield done(segs + tuple(self.iter_segs(s, args[0]))); return
        if name == "insert":
            if args[0] == K(0): yield done((("one", args[1]),) + segs); return
            if is_k(args[0]) and isinstance(kv(args[0]), int) and all(g[0] == "one" for g in segs):
                l = list(segs); l.insert(kv(args[0]), ("one", args[1])); yield done(l); return
            yield done(segs + (("insert", self.freeze(s, args[0]), self.freeze(s, args[1])),)); return
        if name in ("pop", "popleft"):
            left = name == "popleft" or (args and args[0] == K(0))
            if segs and (not args or args[0] == K(-1)) and not left and segs[-1][0] == "one":
                yield done(segs[:-1], segs[-1][1]); return
            if segs and left and segs[0][0] == "one":
                yield done(segs[1:], segs[0][1]); return
            if base[0] == "ref" and not segs:
                yield s, self.exc("IndexError", None, "implicit", node); return
            fb = self.freeze(s, base)
            if not args and not left: v = T("item", fb, K(-1))
            elif left: v = T("item", fb, K(0))
            else: v = T("item", fb, self.freeze(s, args[0]))
            et = self.elem_type(s, base)
            if et: self.typed(v, et)
            t = T("slice", fb, NONE, K(-1), NONE) if not left and not args else T("slice", fb, K(1), NONE, NONE) if left else None
            if t is not None:
                bt = self.typeof(base, s)
                if bt: self.typed(t, bt if len(bt) > 1 else ("list", None))
                yield done((("spread", t),), v); return
            yield done(segs + (("del", self.freeze(s, args[0])),), v); return
        if name == "remove":
            if s.raising: yield st.fork(), self.exc("ValueError", None, "implicit", node)
            yield done(segs + (("rem", self.freeze(s, args[0])),)); return
        if name == "clear": yield done(()); return
        if name == "copy":
            if base[0] == "ref": yield s, self.new_obj(s, "list", segs); return
            yield s, self.new_obj(s, "list", self.iter_segs(s, base)); return
        if name in ("index", "count"):
            if name == "index" and s.raising: yield st.fork(), self.exc("ValueError", None, "implicit", node)
            yield st, self.pure(st, name, self.freeze(st, base), [self.freeze(st, a) for a in args], ("int",)); return
        if name in ("sort", "reverse"):
            f = self.freeze(s, base)
            if name == "reverse": v = T("reversed", f)
            else:
                for s1, v in self.bi_sorted(s, [base], kwargs, node): s = s1
            s.heap[base] = o.with_segs((("spread", v),)); self.mut_event(s, base, name, args, node)
            yield s, NONE; return
        yield from self.opaque_call(st, name, base, args, kwargs, node)

    def set_method(self, st, base, name, args, kwargs, node, kind):
        if name in ("add", "update", "discard", "remove", "clear", "pop", "difference_update", "intersection_update"):
            s = st.fork(); o = self.ensure(s, base, kind); segs = o.segs; v = NONE
            if name == "add": segs = segs + (("one", args[0]),)
            elif name == "update":
                for a in args: segs = segs + tuple(self.iter_segs(s, a))
            elif name in ("discard", "remove"): segs = segs + (("rem", self.freeze(s, args[0])),)
            elif name == "clear": segs = ()
            else: 
                v = self.pure(s, name, self.freeze(s, base), [self.freeze(s, a) for a in args]) if name == "pop" else NONE
                segs = (("spread", self.unk(s, "set." + name)),)
            s.heap[base] = o.with_segs(segs); self.mut_event(s, base, name, args, node)
            yield s, v; return
        if name == "union":
            s = st.fork(); segs = self.iter_segs(s, base)
            for a in args: segs = segs + self.iter_segs(s, a)
            yield s, self.new_obj(s, kind, segs); return
        if name == "copy":
            s = st.fork(); yield s, self.new_obj(s, kind, self.iter_segs(s, base)); return
        if name in ("issubset", "issuperset", "isdisjoint"):
            yield st, atom_val(("truthy", self.pure(st, name, self.freeze(st, base), [self.freeze(st, a) for a in args], ("bool",)))); return
        if name in ("intersection", "difference", "symmetric_difference"):
            yield st, self.pure(st, name, self.freeze(st, base), [self.freeze(st, a) for a in args], ("set", None)); return
        yield from self.opaque_call(st, name, base, args, kwargs, node)

    def dict_method(self, st, base, name, args, kwargs, node):
        if name in ("items", "keys", "values"):
            yield st, T(name, self.freeze(st, base)); return
        if name == "get":
            v = self.mk_in(st, args[0], base, self.freeze(st, args[0]), self.freeze(st, base))
            for s, b in self.branch(st, v):
                if b: yield from self.getitem(s, base, args[0], node)
                else: yield s, (args[1] if len(args) > 1 else NONE)
            return
        if name == "copy":
            s = st.fork(); r = self.new_obj(s, "dict"); self.dict_update(s, r, base); yield s, r; return
        s = st.fork(); o = self.ensure(s, base, "dict")
        if name == "update":
            if args:
                if self.kind(args[0], s) == "dict" or args[0] in s.heap and s.heap[args[0]].kind == "dict" or self.kind(args[0], s) is None:
                    self.dict_update(s, base, args[0])
                else:
                    for s1, d in self.bi_dict(s, [args[0]], {}, node):
                        s1 = s1.fork(); self.dict_update(s1, base, d)
                        for k, v in kwargs.items(): self.dict_put(s1, base, K(k), v)
                        self.mut_event(s1, base, name, args, node); yield s1, NONE
                    return
            for k, v in kwargs.items(): self.dict_put(s, base, K(k), v)
            self.mut_event(s, base, name, args, node); yield s, NONE; return
        if name == "setdefault":
            v = self.mk_in(s, args[0], base, self.freeze(s, args[0]), self.freeze(s, base))
            for s1, b in self.branch(s, v):
                if b: yield from self.getitem(s1, base, args[0], node)
                else:
                    s1 = s1.fork(); d = args[1] if len(args) > 1 else NONE
                    self.dict_put(s1, base, args[0], d); self.mut_event(s1, base, name, args, node)
                    yield s1, d
            return
        if name == "pop":
            v = self.mk_in(s, args[0], base, self.freeze(s, args[0]), self.freeze(s, base)) if args else TRUE
            for s1, b in self.branch(s, v):
                if not b:
                    if len(args) > 1: yield s1, args[1]
                    else: yield s1, self.exc("KeyError", None, "implicit", node)
                    continue
                for s2, x in self.getitem(s1, base, args[0], node):
                    if is_exc(x): yield s2, x; continue
                    s2 = s2.fork(); oo = self.ensure(s2, base, "dict")
                    fk = self.freeze(s2, args[0])
                    segs = oo.segs
                    if all(g[0] == "put" for g in segs) and sum(g[1] == fk for g in segs) == 1 and all(g[1] == fk or is_k(g[1]) for g in segs): segs = tuple(g for g in segs if g[1] != fk)
                    else: segs = segs + (("del", fk),)
                    s2.heap[base] = oo.with_segs(segs); self.mut_event(s2, base, "pop", args, node); yield s2, x
            return
        if name == "clear":
            s.heap[base] = o.with_segs(()); self.mut_event(s, base, name, args, node); yield s, NONE; return
        if name == "popitem":
            s.heap[base] = o.with_segs((("update", self.unk(s, "popitem")),)); self.mut_event(s, base, name, args, node)
            yield s, self.pure(s, name, self.freeze(st, base), []); return
        yield from self.opaque_call(st, name, base, args, kwargs, node)

    # ------------------------------------------------------------ imported library functions
    def ext_call(self, st, q, args, kwargs, node):
        fa = [self.freeze(st, a) for a in args]
        last = q.split(".")[-1]
        if q.startswith("operator.") and not kwargs:
            op = last.strip("_")
            cmp = {"is": "is", "is_not": "isnot"}.get(op, op)
            if cmp in ("eq", "ne", "lt", "le", "gt", "ge", "is", "isnot") and len(args) == 2:
                if cmp in ("lt", "le", "gt", "ge"): st = self.op_event(st, "<", args[0], args[1], node)
                yield st, self.compare(st, cmp, args[0], args[1]); return
            if op == "contains" and len(args) == 2: yield st, self.compare(st, "in", args[1], args[0]); return
            b = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "concat": "+", "or": "|", "and": "&"}.get(op)
            if b and len(args) == 2: yield from self.binop(st, b, args[0], args[1], node); return
            if op == "getitem" and len(args) == 2: yield from self.getitem(st, args[0], args[1], node); return
            if op in ("not", "truth") and len(args) == 1:
                v = self.truth_value(st, args[0]); yield st, v if op == "truth" else self.neg(v); return
            if op == "neg" and len(args) == 1: yield from self.binop(st, "*", K(-1), args[0], node); return
            if op in ("itemgetter", "attrgetter"): yield st, ("getter", op, tuple(fa)); return
        if q in ("copy.copy",):
            v = args[0]; o = st.heap.get(v)
            if o is not None and o.kind in ("list", "dict", "set", "oset"):
                s = st.fork(); r = self.new_obj(s, o.kind, o.segs if v[0] == "ref" else self.iter_segs(s, v) if o.kind != "dict" else (("update", fa[0]),)); yield s, r; return
            k = self.kind(v, st)
            if k in ("list", "dict", "set", "oset"):
                s = st.fork(); r = self.new_obj(s, k, self.iter_segs(s, v) if k != "dict" else (("update", fa[0]),)); yield s, r; return
            if o is not None and o.kind == "inst":
                s = st.fork(); r = self.new_obj(s, "inst", cls=o.cls, base=o.base)
                for (b, n), x in list(s.fields.items()):
                    if b == v: s.fields[(r, n)] = x
                yield s, r; return
            if k == "cls":
                s = st.fork(); t = self.typeof(v, s); r = self.new_obj(s, "inst", cls=t[1], base=v)
                for (b, n), x in list(s.fields.items()):
                    if b == v: s.fields[(r, n)] = x
                yield s, r; return
            if k in ("str", "int", "float", "bool", "tuple") or is_k(v): yield st, v; return
            yield st, self.pure(st, "copy.copy", None, fa); return
        if q == "copy.deepcopy":
            if is_k(args[0]): yield st, args[0]; return
            t = self.typeof(args[0], st)
            yield st, self.typed(self.pure(st, "copy.deepcopy", None, fa), t); return
        if q == "functools.partial":
            yield st, ("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))); return
        if q == "functools.reduce":
            s0 = st.fork()
            if len(args) < 3:
                yield st, self.pure(st, q, None, fa); return
            s0.set("$acc", args[2])
            def assign(s, x):
                s = s.fork(); s.set("$e", x); yield s, None
            def body(s):
                for s1, v in self.call(s, args[0], [s.frames[s.fid]["$acc"], s.frames[s.fid]["$e"]], {}, node):
                    if is_exc(v): yield s1, ("raise", v); continue
                    s2 = s1.fork(); s2.set("$acc", v); yield s2, None
            for s, c in self.iterate(s0, args[1], assign, body, node):
                yield s, (c[1] if c else s.frames[s.fid]["$acc"])
            return
        if q in ("itertools.chain",):
            s = st.fork(); segs = []
            for a in args: segs += self.iter_segs(s, a)
            yield s, self.new_obj(s, "list", segs); return
        if q == "itertools.chain.from_iterable":
            s0 = st.fork(); r = self.new_obj(s0, "list")
            def assign(s, x):
                s = s.fork(); s.set("$e", x); yield s, None
            def body(s):
                s = s.fork(); o = s.heap[r]; s.heap[r] = o.with_segs(o.segs + tuple(self.iter_segs(s, s.frames[s.fid]["$e"]))); yield s, None
            for s, c in self.iterate(s0, args[0], assign, body, node): yield s, (c[1] if c else r)
            return
        if q in ("collections.OrderedDict", "collections.defaultdict", "collections.deque"):
            if last == "deque":
                s = st.fork(); yield s, self.new_obj(s, "list", self.iter_segs(s, args[0]) if args else ()); return
            if last == "OrderedDict": yield from self.bi_dict(st, args, kwargs, node); return
            s = st.fork(); r = self.new_obj(s, "dict", cls="defaultdict"); 
            s.fields[(r, "$factory")] = args[0] if args else NONE
            yield s, r; return
        if q in ("itertools.islice",) and len(args) >= 2:
            yield st, self.slice(st, args[0], *( [NONE, args[1], NONE] if len(args) == 2 else [args[1], args[2], args[3] if len(args) > 3 else NONE])); return
        if q.startswith(PURE_EXT) and q not in ("copy.deepcopy",):
            ret = None
            if q in ("re.findall", "re.split"): ret = ("list", None)
            if q in ("re.sub", "re.escape"): ret = ("str",)
            if q.startswith("os.path.") and last in ("join", "dirname", "basename", "abspath"): ret = ("str",)
            v = self.pure(st, q, None, fa, ret, sorted((k, self.freeze(st, x)) for k, x in kwargs.items()))
            yield st, v; return
        if q == "contextlib.suppress":
            yield st, T("call", q, None, tuple(args), (), 0); return
        if last in ("abstractmethod", "dataclass"): yield st, args[0] if args else NONE; return
        yield from self.opaque_call(st, q, None, args, kwargs, node)
