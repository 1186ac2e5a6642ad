"""Path-sensitive abstract interpretation of Python functions with one-pass loop summaries.

An entry function is interpreted over abstract values (constants, terms over the inputs, abstract heap objects).
Branches add facts to a path; facts are decided by lookup in a small closed theory (no solver).  A loop over S is
summarised by a fixpoint: which locals / objects / attributes its body changes ("phi" values), and the finite set
of alternatives one iteration can take (facts about the current element, what is emitted to which collection, which
calls are made, the next phi values).  After a loop a path knows: every iteration took one of these alternatives.

Nothing is executed; no input values are chosen.  What is not understood becomes an 'unk' term and makes the path
imprecise; obligations over such paths are reported as undecided, never as violated.
"""
import ast, itertools
from .program import Func, Class, Module

sysdepth = __import__("sys"); sysdepth.setrecursionlimit(20000)


class TooComplex(Exception): pass


# ------------------------------------------------------------------ values
def K(v): return ("k", type(v).__name__, v)
NONE = K(None); TRUE = K(True); FALSE = K(False)
def T(op, *a): return ("t", op) + a
def tup(*a): return ("tup",) + a
def is_k(v): return v[0] == "k"
def is_t(v, *op): return bool(v) and v[0] == "t" and (not op or v[1] in op)
def is_exc(v): return v[0] == "exc"
def kv(v): return v[2]
def atom_val(a, truth=True): return ("t", "bool", a, truth)
def idx(L): return T("idx", L)


def subterms(v):
    """all values nested in v (including v)"""
    if isinstance(v, tuple):
        if v and isinstance(v[0], str): yield v
        for x in v:
            if isinstance(x, tuple): yield from subterms(x)


def contains(v, sub): return any(x == sub for x in subterms(v))


def has_unk(v): return any(x[:2] == ("t", "unk") for x in subterms(v) if len(x) > 1)


def subst(v, m):
    """replace whole subterms by mapping m"""
    if not isinstance(v, tuple): return v
    if v in m: return m[v]
    if v and v[0] == "k": return v
    changed = False; out = []
    for x in v:
        if isinstance(x, tuple):
            y = subst(x, m)
            if y is not x: changed = True
            out.append(y)
        else: out.append(x)
    return tuple(out) if changed else v


def show(v, depth=0):
    if not isinstance(v, tuple) or not v: return str(v)
    if depth > 12: return "…"
    s = lambda x: show(x, depth + 1)
    h = v[0]
    if h == "k": return repr(v[2])
    if h == "tup": return "(" + ", ".join(s(x) for x in v[1:]) + ")"
    if h == "ref": return f"obj#{v[1]}"
    if h in ("cls", "mod", "bi", "ext"): return str(v[1])
    if h == "bm": return f"{s(v[1])}.{v[2]}"
    if h == "bound": return f"{s(v[1])}.{v[2].name}"
    if h == "fn": return f"<function #{v[1]}>"
    if h == "exc": return f"raise {v[1]}({s(v[2]) if v[2] else ''})"
    if h == "one": return s(v[1])
    if h == "spread": return "*" + s(v[1])
    if h == "acc": return f"<collected by loop {v[1]}>"
    if h == "put": return f"{s(v[1])}: {s(v[2])}"
    if h == "t":
        o, a = v[1], v[2:]
        if o == "param": return a[0]
        if o == "attr": return f"{s(a[0])}.{a[1]}"
        if o == "item": return f"{s(a[0])}[{s(a[1])}]"
        if o == "idx": return f"i{a[0]}"
        if o == "len": return f"len({s(a[0])})"
        if o == "phi": return f"{a[1] if isinstance(a[1], str) else '.'.join(map(str, a[1][1:])) if not isinstance(a[1], tuple) else show(a[1], depth+1)}@loop{a[0]}"
        if o == "call": return (f"{s(a[1])}." if a[1] else "") + f"{a[0]}(" + ", ".join(s(x) for x in a[2]) + ")"
        if o == "bin": return f"({s(a[1])} {a[0]} {s(a[2])})"
        if o == "bool": return ("" if a[1] else "not ") + s(a[0])
        if o in ("list", "set", "dict", "oset"): return o + "[" + ", ".join(s(x) for x in a) + "]"
        if o == "unk": return f"?{a[1]}?"
        if o == "new": return f"{a[0].split('.')[-1]}(" + ", ".join(s(x) for x in a[1:]) + ")"
        return f"{o}(" + ", ".join(s(x) for x in a) + ")"
    if h in ("isnone", "truthy", "isinst", "eq", "lt", "in", "callable"):
        return f"{h}(" + ", ".join(s(x) for x in v[1:]) + ")"
    return str(h) + "(" + ", ".join(s(x) for x in v[1:]) + ")"


def show_facts(facts):
    return [("" if t else "not ") + show(a) for a, t in facts.items()]


# ------------------------------------------------------------------ state
class Obj:
    __slots__ = ("kind", "cls", "base", "segs")
    def __init__(self, kind, cls=None, base=None, segs=()):
        self.kind = kind; self.cls = cls; self.base = base; self.segs = tuple(segs)
    def with_segs(self, segs): return Obj(self.kind, self.cls, self.base, segs)
    def __eq__(self, o): return (self.kind, self.cls, self.base, self.segs) == (o.kind, o.cls, o.base, o.segs)
    def __repr__(self): return f"Obj({self.kind},{self.cls},{self.base},{self.segs})"


class State:
    __slots__ = ("frames", "fid", "heap", "fields", "facts", "loops", "exists", "trace", "imprecise", "counts", "stack", "lstack", "raising")
    def __init__(self):
        self.frames = {}; self.fid = 0; self.heap = {}; self.fields = {}; self.facts = {}; self.loops = {}; self.exists = ()
        self.trace = (); self.imprecise = frozenset(); self.counts = {}; self.stack = (); self.lstack = (); self.raising = 0
    def fork(self):
        s = State()
        s.frames = dict(self.frames); s.fid = self.fid; s.heap = dict(self.heap); s.fields = dict(self.fields)
        s.facts = dict(self.facts); s.loops = dict(self.loops); s.exists = self.exists; s.trace = self.trace
        s.imprecise = self.imprecise; s.counts = dict(self.counts); s.stack = self.stack; s.lstack = self.lstack; s.raising = self.raising
        return s
    def set(self, name, v, fid=None):
        fid = self.fid if fid is None else fid
        self.frames[fid] = {**self.frames.get(fid, {}), name: v}
    def event(self, *e): self.trace = self.trace + (Event(*e),)
    def mark(self, why): self.imprecise = self.imprecise | {why}


class Event:
    """kind: call / put / mutate / setattr / del / loop / raise ; data by keyword"""
    __slots__ = ("kind", "d")
    def __init__(self, kind, d): self.kind = kind; self.d = d
    def __getattr__(self, n):
        try: return self.d[n]
        except KeyError: raise AttributeError(n)
    def __repr__(self): return f"Event({self.kind},{ {k: show(v) if isinstance(v, tuple) else v for k, v in self.d.items() if k not in ('node',)} })"


class Alt:
    """one alternative of an iteration"""
    __slots__ = ("facts", "trace", "next", "emits", "state", "loops", "exists", "elem_out", "ctl", "val")


class Loop:
    def __init__(self, L, dom, node, func):
        self.L = L; self.dom = dom; self.node = node; self.func = func
        self.phi_init = {}; self.alts = []; self.objs = {}; self.entry = None; self.seqs = ()
        self.exits = []      # Alt-like records of iterations that leave the loop (break / return / raise)
        self.replaced = set(); self.uniq = False
    def line(self): return getattr(self.node, "lineno", 0)


BOOLOPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CONTAINERS = ("list", "dict", "set", "oset", "tuple", "str")
PURE_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "startswith", "endswith", "replace", "format", "encode", "decode", "isdigit", "isalpha", "isalnum", "isspace", "find", "rfind", "index", "count", "title", "capitalize", "casefold", "partition", "rpartition", "zfill", "join", "removeprefix", "removesuffix", "hexdigest", "isidentifier", "expandtabs", "translate"}
LISTMUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "popleft", "appendleft"}
# library functions whose results the rules know how to read
KNOWN_EXT = ("re.", "hashlib.", "os.", "pickle.", "requests.", "csv.", "sqlite3.", "psycopg", "shutil.", "copy.", "json.")
PURE_EXT = ("re.", "hashlib.", "copy.", "itertools.", "functools.", "operator.", "os.path.", "math.", "collections.", "string.", "json.dumps", "json.loads", "pickle.dumps")


class Engine:
    def __init__(self, prog, opaque=(), calls_raise=False, inline_depth=14, max_paths=6000, force_inline=()):
        self.prog = prog; self.opaque = set(opaque); self.calls_raise = calls_raise
        self.inline_depth = inline_depth; self.max_paths = max_paths
        self.n = 0; self.loops = {}; self.fns = {}; self.types = {}; self.frame_parent = {}; self.frame_mod = {}; self.frame_func = {}
        self.captured = set(); self.steps = 0; self.const_cache = {}; self.max_steps = 400000
        self.functions = set()      # functions interpreted (evidence)
        self.implicit = False       # model KeyError etc. in subscripts under try
        self.inits = {}
        self.yield_hooks = []
        self.alias_loop = {}
        self.on_call = None

    def fresh(self):
        self.n += 1; return self.n

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps: raise TooComplex("step budget exceeded")

    # ---------------------------------------------------------------- types
    def typeof(self, v, st=None):
        h = v[0]
        if h == "k":
            return (v[1],) if v[1] != "NoneType" else ("none",)
        if h == "tup": return ("tuple",)
        if h == "ref":
            o = st.heap.get(v) if st else None
            if o is None: return None
            if o.kind == "inst": return ("cls", o.cls)
            return (o.kind, None) if o.kind != "dict" else ("dict", None, None)
        if h in ("fn", "bound", "bm", "cls", "bi", "ext"): return ("callable",)
        if h != "t": return None
        if v in self.types: return self.types[v]
        op = v[1]; t = None
        if op == "attr":
            bt = self.typeof(v[2], st)
            if bt and bt[0] == "cls":
                c = self.prog.classes.get(bt[1])
                if c:
                    a, owner = c.annotation(v[3])
                    if a is not None: t = self.prog.parse_type(a, owner.module)
        elif op == "item":
            bt = self.typeof(v[2], st)
            if bt:
                if bt[0] in ("list", "set", "oset") and len(bt) > 1: t = bt[1]
                elif bt[0] == "dict" and len(bt) > 2: t = bt[2]
                elif bt[0] == "str": t = ("str",)
                elif bt[0] == "tuple" and len(bt) > 1 and is_k(v[3]) and isinstance(kv(v[3]), int) and kv(v[3]) < len(bt) - 1: t = bt[1 + kv(v[3])]
        elif op in ("len", "idx"): t = ("int",)
        elif op == "slice": t = self.typeof(v[2], st)
        elif op in ("sorted", "list", "extend", "concat", "mut_list"): t = ("list", self.typeof(v[2], st)[1] if op == "sorted" and self.typeof(v[2], st) and len(self.typeof(v[2], st)) > 1 and self.typeof(v[2], st)[0] in ("list", "set", "oset") else None)
        elif op == "dict": t = ("dict", None, None)
        elif op == "set": t = ("set", None)
        elif op == "oset": t = ("oset", None)
        elif op in ("keys", "values", "items", "zip", "enumerate", "reversed", "range"):
            t = ("list", None)
            bt = self.typeof(v[2], st) if len(v) > 2 and isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], str) else None
            if op == "values" and bt and bt[0] == "dict" and len(bt) > 2: t = ("list", bt[2])
            if op == "keys" and bt and bt[0] == "dict" and len(bt) > 2: t = ("list", bt[1])
            if op == "reversed" and bt and bt[0] == "list": t = bt
        elif op in ("str", "strm", "fstr", "join"): t = ("str",)
        elif op == "new": t = ("cls", v[2])
        elif op == "bool": t = ("bool",)
        elif op == "bin":
            a, b = self.typeof(v[3], st), self.typeof(v[4], st)
            if a and b and a[0] == "int" and b[0] == "int" and v[2] != "/": t = ("int",)
            elif v[2] == "+" and a and a[0] in ("list", "str", "tuple"): t = a
            elif v[2] == "+" and b and b[0] in ("list", "str", "tuple"): t = b
            elif v[2] in "|&-" and a and a[0] in ("set", "dict", "oset"): t = a
            elif v[2] == "%" and a and a[0] == "str": t = a
        elif op == "phi":
            lp = self.loops.get(v[2])
            if lp and v[3] in lp.phi_init: t = self.typeof(lp.phi_init[v[3]], lp.entry)
            if t == ("none",): t = None
        self.types[v] = t
        if t is None: del self.types[v]
        return t

    def kind(self, v, st):
        t = self.typeof(v, st)
        return t[0] if t else None

    # ---------------------------------------------------------------- freezing
    def freeze(self, st, v, depth=0, seen=()):
        """heap-independent snapshot of a value"""
        h = v[0]
        if depth > 12: return v
        if h == "ref":
            if v in seen: return T("cycle", v[1])
            o = st.heap.get(v)
            if o is None: return v
            return self.freeze_obj(st, v, o, depth, seen)
        if h == "tup":
            return ("tup",) + tuple(self.freeze(st, x, depth + 1, seen) for x in v[1:])
        if h == "t":
            o = st.heap.get(v)
            if o is not None and not (len(o.segs) == 1 and o.segs[0] == ("base", v)):
                return T("mut", v, *[self.freeze_seg(st, s, depth + 1, seen) for s in o.segs])
        return v

    def freeze_seg(self, st, s, depth, seen):
        return (s[0],) + tuple(self.freeze(st, x, depth, seen) if isinstance(x, tuple) and x and isinstance(x[0], str) and s[0] not in ("acc", "base") else x for x in s[1:])

    def freeze_obj(self, st, ref, o, depth, seen):
        seen = seen + (ref,)
        if o.kind == "inst":
            names = sorted(n for (b, n) in st.fields if b == ref)
            return T("new", o.cls, *[("f", n, self.freeze(st, st.fields[(ref, n)], depth + 1, seen)) for n in names], *([("base", o.base)] if o.base else []))
        segs = tuple(self.freeze_seg(st, s, depth + 1, seen) for s in o.segs)
        if o.kind == "list" and len(segs) == 1 and segs[0][0] == "spread":
            t = self.typeof(segs[0][1], st)
            if t and t[0] == "list": return segs[0][1]
        if o.kind == "dict" and len(segs) == 1 and segs[0][0] == "update": return segs[0][1]
        return T(o.kind, *segs)

    # ---------------------------------------------------------------- facts
    def norm_int(self, v):
        """v as (base, k)"""
        if is_k(v) and type(kv(v)) is int: return None, kv(v)
        if is_t(v, "bin") and v[2] == "+" and is_k(v[4]) and type(kv(v[4])) is int: return v[3], kv(v[4])
        return v, 0

    def mk_int(self, b, k):
        if b is None: return K(k)
        return b if k == 0 else T("bin", "+", b, K(k))

    def mk_cmp(self, st, op, a, b):
        """-> boolean value (K or 'bool' term)"""
        if op in ("ne", "isnot", "notin", "gt", "ge", "le"):
            if op == "ne": return self.neg(self.mk_cmp(st, "eq", a, b))
            if op == "isnot": return self.neg(self.mk_cmp(st, "is", a, b))
            if op == "notin": return self.neg(self.mk_cmp(st, "in", a, b))
            if op == "gt": return self.mk_cmp(st, "lt", b, a)
            if op == "ge": return self.neg(self.mk_cmp(st, "lt", a, b))
            if op == "le": return self.neg(self.mk_cmp(st, "lt", b, a))
        a0, b0 = a, b
        a, b = self.freeze(st, a), self.freeze(st, b)
        if op in ("is", "eq"):
            if b == NONE: return atom_val(("isnone", a))
            if a == NONE: return atom_val(("isnone", b))
            if is_k(a) and is_k(b):
                try: return K(a[2] == b[2])
                except Exception: pass
            if a == b: return TRUE
            for x, y in ((a, b), (b, a)):
                if y in (TRUE, FALSE) and self.typeof(x, st) == ("bool",):
                    return x if y == TRUE else self.neg(x)
                kd = self.kind(x, st)
                if y == K("") and kd == "str": return atom_val(("truthy", x), False)
                if y == K(0) and is_t(x, "len"): return atom_val(("truthy", x[2]), False)
                if y in (T("list"), T("dict"), T("set")) and kd == y[1]: return atom_val(("truthy", x), False)
            for x, y in ((a, b), (b, a)):      # x[:len(y)] == y: x starts with y
                if is_t(x, "slice") and x[3] in (NONE, K(0)) and x[5] == NONE and (x[4] == T("len", y) or is_k(y) and type(kv(y)) is str and x[4] == K(len(kv(y)))) and self.kind(y, st) == "str":
                    return atom_val(("truthy", T("call", "startswith", x[2], (y,), (), 0)))
            for x, y in ((a, b), (b, a)):
                if is_t(x, "type") and y[0] in ("cls", "bi"): 
                    d = self.decide(st, ("isinst", x[2], y[1])); return K(d) if d is False else atom_val(("isinst", x[2], y[1]))
                if x[0] in ("cls", "bi") and y[0] in ("cls", "bi"): return K(x[1] == y[1])
            if a[0] == "tup" and b[0] == "tup" and len(a) == len(b) == 2: return self.mk_cmp(st, "eq", a[1], b[1])
            (ab, ak), (bb, bk) = self.norm_int(a), self.norm_int(b)
            if ab is not None and bb is not None and (ak or bk) and ak != bk:
                if ab == bb: return FALSE
                if ak > bk: a, b = T("bin", "+", ab, K(ak - bk)), bb
                else: a, b = ab, T("bin", "+", bb, K(bk - ak))
            elif ab is not None and ak and bb is None: a, b = ab, K(bk - ak)
            elif bb is not None and bk and ab is None: a, b = bb, K(ak - bk)
            return atom_val(("eq",) + tuple(sorted((a, b), key=repr)))
        if op == "lt":
            if is_k(a) and is_k(b):
                try: return K(a[2] < b[2])
                except Exception: pass
            (ab, ak), (bb, bk) = self.norm_int(a), self.norm_int(b)
            k = ak - bk      # ab + k < bb
            ints = all(x is None or self.kind(x, st) == "int" for x in (ab, bb))
            if bb is not None and ab is None and is_t(bb, "len") and ints:
                if k < 0: return TRUE
                if k == 0: return atom_val(("truthy", bb[2]))
            if ab is not None and bb is None and is_t(ab, "len") and ints:      # len < -k
                if -k <= 0: return FALSE
                if -k == 1: return atom_val(("truthy", ab[2]), False)
            if ab is not None and ab == bb and ints: return K(k < 0)
            if ints and (ab is not None or bb is not None):
                x, y = ab, bb
                if repr(x) > repr(y):     # x + k < y  <=>  not (y - k - 1 < x)
                    return atom_val(("lt", self.mk_int(y, -k - 1) if y is not None else K(-k - 1), x if x is not None else K(0)), False)
                return atom_val(("lt", self.mk_int(x, k) if x is not None else K(k), y if y is not None else K(0)))
            if a == b: return FALSE
            return atom_val(("lt", a, b))
        if op == "in":
            return self.mk_in(st, a0, b0, a, b)
        return T("unk", self.fresh(), "compare " + op)

    def mk_in(self, st, a0, b0, a, b):
        if b[0] == "tup" or (is_t(b) and b[1] in ("list", "set", "oset") and all(s[0] == "one" for s in b[2:])):
            el = b[1:] if b[0] == "tup" else [s[1] for s in b[2:]]
            if not el: return FALSE
            if any(x == a for x in el): return TRUE
            if is_k(a) and all(is_k(x) for x in el): return K(kv(a) in [kv(x) for x in el])
            if len(el) == 1: return self.mk_cmp(st, "eq", a, el[0])
            return T("anyof", *[self.mk_cmp(st, "eq", a, x) for x in el])
        if is_k(a) and is_k(b):
            try: return K(kv(a) in kv(b))
            except Exception: pass
        if is_t(b, "keys"): b = b[2]
        if is_t(b) and b[1] in ("dict", "mut"):
            segs = b[2:] if b[1] == "dict" else b[3:]
            for s in reversed(segs):
                if s[0] == "put":
                    if s[1] == a: return TRUE
                    if is_k(s[1]) and is_k(a): continue
                    break
                if s[0] == "update": 
                    # membership in the base decides membership if nothing later could have removed it
                    if segs.index(s) == len(segs) - 1 or all(x[0] == "put" for x in segs[segs.index(s) + 1:]):
                        pass
                    break
                break
            else:
                if b[1] == "dict": return FALSE
                b = b[2]
            if b[1] == "dict" and not b[2:]: return FALSE
            if is_t(b) and b[1] == "dict" and len(b) == 3 and b[2][0] == "update": b = b[2][1]
        if is_t(b) and b[1] in ("list", "set", "oset") and len(b) == 3 and b[2][0] == "spread": b = b[2][1]
        if is_t(b) and b[1] == "set" and len(b) == 2: return FALSE
        return atom_val(("in", a, b))

    def neg(self, v):
        if v == TRUE: return FALSE
        if v == FALSE: return TRUE
        if is_t(v, "bool"): return ("t", "bool", v[2], not v[3])
        if is_t(v, "not"): return v[2]
        return T("not", v)

    def lookup(self, st, atom):
        return st.facts.get(atom)

    def decide(self, st, atom):
        """True / False / None"""
        f = st.facts.get(atom)
        if f is not None: return f
        k = atom[0]
        if k == "isnone":
            v = atom[1]
            if is_k(v): return kv(v) is None
            if v[0] != "t": return False
            if v[1] in ("len", "idx", "list", "dict", "set", "oset", "fstr", "str", "join", "new", "bool", "sorted", "zip", "enumerate", "keys", "items", "values", "range", "mut"): return False
            if v[1] == "bin": return False
            if v[1] == "item":
                # a container declared to hold objects of a class of the program does not hold None
                t = self.typeof(v, st)
                if t and t[0] == "cls" and t[1] in self.prog.classes: return False
            if v[1] == "phi":
                r = self.phi_decide(st, v, lambda s, x: self.decide(s, ("isnone", x)))
                if r is not None: return r
            if st.facts.get(("truthy", v)) is True: return False
            for a, t in st.facts.items():
                if t and a[0] == "isinst" and a[1] == v: return False
                if t and a[0] == "eq" and v in a[1:]:
                    o = a[2] if a[1] == v else a[1]
                    if is_k(o): return kv(o) is None
        elif k == "truthy":
            v = atom[1]
            if is_k(v): return bool(kv(v))
            if v[0] == "tup": return len(v) > 1
            if v[0] in ("fn", "bound", "cls", "bi", "bm", "ext"): return True
            if v[0] == "t":
                if v[1] == "new":
                    c = self.prog.classes.get(v[2])
                    if c is None or not (c.find("__bool__") or c.find("__len__")): return True
                if v[1] in ("list", "set", "oset", "dict"):
                    r = self.nonempty_segs(st, v[2:])
                    if r is not None: return r
                if v[1] == "len":
                    return self.decide(st, ("truthy", v[2]))
                if v[1] == "idx": return None
                if v[1] == "slice" and v[3:] == (K(1), NONE, NONE):
                    # what follows the first element
                    one = st.facts.get(("eq",) + tuple(sorted((K(1), T("len", v[2])), key=repr)))
                    if one is True or st.facts.get(("truthy", v[2])) is False: return False
                    if one is False and st.facts.get(("truthy", v[2])) is True: return True
                if v[1] == "fstr" and any(is_k(x) and kv(x) for x in v[2:]): return True
                if v[1] == "phi":
                    r = self.phi_decide(st, v, lambda s, x: self.decide(s, ("truthy", x)))
                    if r is not None: return r
                if st.facts.get(("isnone", v)) is True: return False
                if v[1] == "sorted" or v[1] in ("keys", "values", "items", "enumerate", "reversed"):
                    return self.decide(st, ("truthy", v[2]))
                for a, t in st.facts.items():
                    if t and a[0] == "eq" and v in a[1:]:
                        o = a[2] if a[1] == v else a[1]
                        if is_k(o): return bool(kv(o))
        elif k == "eq":
            a, b = atom[1], atom[2]
            if a == b: return True
            if is_k(a) and is_k(b): return kv(a) == kv(b)
            for x, y in ((a, b), (b, a)):
                if is_k(y):
                    for f, t in st.facts.items():
                        if f[0] == "eq" and t and x in f[1:]:
                            o = f[2] if f[1] == x else f[1]
                            if is_k(o): return kv(o) == kv(y)
                    if st.facts.get(("isnone", x)) is True and kv(y) is not None: return False
                    if is_t(x, "len") and kv(y) == 1:
                        more, some = st.facts.get(("truthy", T("slice", x[2], K(1), NONE, NONE))), st.facts.get(("truthy", x[2]))
                        if more is True or some is False: return False
                        if more is False and some is True: return True
                    tv = st.facts.get(("truthy", x))
                    if tv is True and not kv(y): return False
                    if tv is False and kv(y): return False
                    if is_t(x, "phi"):
                        r = self.phi_decide(st, x, lambda s, z: self.decide(s, ("eq",) + tuple(sorted((z, y), key=repr))) if not (is_k(z) and is_k(y)) else kv(z) == kv(y))
                        if r is not None: return r
            if st.facts.get(("lt", a, b)) or st.facts.get(("lt", b, a)): return False
            ta, tb = self.ckind(a, st), self.ckind(b, st)
            if ta and tb and ta != tb and not ({ta, tb} <= {"int", "bool", "float"}): return False
        elif k == "lt":
            a, b = atom[1], atom[2]
            if st.facts.get(("lt", b, a)) is True: return False
            e = ("eq",) + tuple(sorted((a, b), key=repr))
            if st.facts.get(e) is True: return False
            if st.facts.get(e) is False and st.facts.get(("lt", b, a)) is False and False: return True
        elif k == "isinst":
            v, cname = atom[1], atom[2]
            c = self.ckind(v, st)
            if c is not None:
                if c == cname: return True
                r = self.sub(c, cname)
                if r is not None: return r
            if st.facts.get(("isnone", v)) is True: return cname == "NoneType"
            for a, t in st.facts.items():
                if a[0] == "isinst" and a[1] == v and t:
                    r = self.sub(a[2], cname)
                    if r is not None: return r
                if a[0] == "isinst" and a[1] == v and not t and self.sub(cname, a[2]): return False
                if a[0] == "eq" and t and v in a[1:]:
                    o = a[2] if a[1] == v else a[1]
                    if is_k(o):
                        r = self.sub(o[1], cname)
                        if r is not None: return r
        elif k == "callable":
            v = atom[1]
            if v[0] in ("fn", "bound", "cls", "bi", "bm", "ext"): return True
            if is_k(v) or v[0] == "tup" or (v[0] == "t" and v[1] in ("list", "dict", "set")): return False
        elif k == "in":
            a, b = atom[1], atom[2]
            if is_t(b) and b[1] in ("list", "set", "oset") and any(s[0] == "one" and s[1] == a for s in b[2:]): return True
            if st.facts.get(("truthy", b)) is False: return False
        return None

    def ckind(self, v, st):
        """concrete class name of a value when it is certain"""
        if is_k(v): return v[1]
        if v[0] == "tup": return "tuple"
        if v[0] == "t":
            if v[1] in ("list", "dict", "set"): return v[1]
            if v[1] in ("fstr", "join", "str"): return "str"
            if v[1] in ("len", "idx"): return "int"
            if v[1] == "new": return v[2]
            if v[1] == "sorted": return "list"
        if v[0] in ("fn", "bound"): return "function"
        return None

    def sub(self, c, d):
        """is class c a subclass of d? None = unknown"""
        if c == d or d == "object": return True
        if (c, d) in (("bool", "int"),): return True
        bi = {"int", "float", "str", "bool", "list", "dict", "set", "tuple", "NoneType", "function", "bytes", "frozenset"}
        if c in bi and d in bi: return False
        cc, dd = self.prog.classes.get(c), self.prog.classes.get(d)
        if cc and dd: 
            if cc.is_sub(d): return True
            if dd.is_sub(c): return None
            return False
        if (c in bi) and dd: return False
        if cc and d in bi: return False if not cc.ext_bases() or all(x in ("ABC", "object") for x in cc.ext_bases()) else None
        return None

    def nonempty_segs(self, st, segs):
        if not segs: return False
        res = False
        for s in segs:
            if s[0] in ("one", "put"): return True
            if s[0] in ("spread", "update", "base"):
                r = self.decide(st, ("truthy", s[1]))
                if r: return True
                if r is None: res = None
            elif s[0] == "acc":
                r = self.acc_nonempty(st, s)
                if r: return True
                if r is None: res = None
            else: res = None
        return res

    def acc_nonempty(self, st, s):
        lp = self.loops.get(s[1])
        if lp is None or not lp.done: return None
        allowed = st.loops.get(s[1], (None, None))[1]
        alts = [a for i, a in enumerate(lp.alts) if allowed is None or i in allowed]
        em = [any(x[0] in ("one", "put") for x in a.emits.get(s[2], ())) for a in alts]
        maybe = [bool(a.emits.get(s[2], ())) for a in alts]
        if not any(maybe): return False
        if em and all(em):
            for q in lp.seqs:
                return self.decide(st, ("truthy", q))
        for (L, al) in st.exists:
            if L == s[1] and all(any(x[0] in ("one", "put") for x in lp.alts[i].emits.get(s[2], ())) for i in al if i < len(lp.alts)): return True
        return None

    def phi_decide(self, st, v, f):
        """all possible sources of a loop-carried value agree"""
        lp = self.loops.get(v[2])
        if lp is None or not getattr(lp, "done", False): return None
        name = v[3]
        allowed = st.loops.get(v[2], (None, None))[1]
        if getattr(lp, "_busy", False): return None
        lp._busy = True
        try:
            vals = [f(st, lp.phi_init.get(name, NONE))]
            for i, a in enumerate(lp.alts):
                if allowed is not None and i not in allowed: continue
                x = a.next.get(name, v)
                if x == v: continue
                vals.append(f(a.state, x) if a.state is not None else None)
        finally: lp._busy = False
        if any(x is None for x in vals): return None
        return vals[0] if len(set(vals)) == 1 else None

    def assume(self, st, atom, truth):
        """-> state with the fact, or None if contradictory"""
        d = self.decide(st, atom)
        if d is not None:
            return st if d == truth else None
        s = st.fork()
        s.facts[atom] = truth
        # consequences
        if atom[0] == "eq" and truth:
            a, b = atom[1], atom[2]
            for x, y in ((a, b), (b, a)):
                if is_k(y):
                    if s.facts.get(("truthy", x)) is not None and s.facts[("truthy", x)] != bool(kv(y)): return None
                    for f, t in list(s.facts.items()):
                        if t and f[0] == "eq" and f != atom and x in f[1:]:
                            o = f[2] if f[1] == x else f[1]
                            if is_k(o) and kv(o) != kv(y): return None
        if atom[0] == "truthy" and truth is False:
            pass
        s2 = self.phi_learn(s, atom, truth)
        return s2

    def phi_learn(self, st, atom, truth):
        """a fact about a loop-carried value after the loop says which iterations happened"""
        phis = [x for x in atom[1:] if is_t(x, "phi")]
        if len(phis) != 1 or atom[0] not in ("truthy", "eq", "isnone"): 
            if atom[0] == "truthy" and is_t(atom[1]) and atom[1][1] in ("list", "set", "oset", "dict") : return self.acc_learn(st, atom, truth)
            return st
        v = phis[0]; lp = self.loops.get(v[2])
        if lp is None or v[2] not in st.loops or not getattr(lp, "done", False): return st
        mode, allowed = st.loops[v[2]]
        name = v[3]
        rep = lambda x: tuple(x if y == v else y for y in atom)
        def val(s, x):
            at = rep(x)
            if at[0] == "eq":
                if is_k(at[1]) and is_k(at[2]): return kv(at[1]) == kv(at[2])
                at = ("eq",) + tuple(sorted(at[1:], key=repr))
            return self.decide(s, at)
        init = val(st, lp.phi_init.get(name, NONE))
        src = {}
        for i, a in enumerate(lp.alts):
            if allowed is not None and i not in allowed: continue
            x = a.next.get(name, v)
            src[i] = "same" if x == v else val(a.state, x)
        if init is None or None in src.values(): return st
        al = frozenset(allowed if allowed is not None else range(len(lp.alts)))
        yes = frozenset(i for i, t in src.items() if t is truth)
        no = frozenset(i for i, t in src.items() if t is (not truth))
        s = st.fork()
        if init is not truth:
            if not yes: return None
            s.exists = s.exists + ((v[2], yes),)
        else:
            if no and not yes:
                s.loops[v[2]] = (mode, al - no)
        return s

    def acc_learn(self, st, atom, truth):
        segs = atom[1][2:]
        s = st.fork()
        for g in segs:
            if g[0] != "acc" or g[1] not in st.loops: 
                if not truth and g[0] in ("spread", "update"):
                    s2 = self.assume(s, ("truthy", g[1]), False)
                    if s2 is None: return None
                    s = s2.fork()
                continue
            lp = self.loops[g[1]]; mode, allowed = s.loops[g[1]]
            al = frozenset(allowed if allowed is not None else range(len(lp.alts)))
            em = frozenset(i for i in al if i < len(lp.alts) and lp.alts[i].emits.get(g[2]))
            if truth and len(segs) == 1: s.exists = s.exists + ((g[1], em),)
            if not truth:
                sure = frozenset(i for i in em if any(x[0] in ("one", "put") for x in lp.alts[i].emits[g[2]]))
                s.loops[g[1]] = (mode, al - sure)
        return s

    def branch(self, st, v):
        """yield (state, bool) for the truth of v"""
        self.tick()
        if is_k(v): yield st, bool(kv(v)); return
        if is_t(v, "not"):
            for s, b in self.branch(st, v[2]): yield s, not b
            return
        if is_t(v, "anyof"):
            def go(s, rest):
                if not rest: yield s, False; return
                for s1, b in self.branch(s, rest[0]):
                    if b: yield s1, True
                    else: yield from go(s1, rest[1:])
            yield from go(st, v[2:]); return
        if is_t(v, "bool"):
            atom, pol = v[2], v[3]
        else:
            atom, pol = ("truthy", self.freeze(st, v)), True
            if is_t(atom[1], "bool"): 
                yield from self.branch(st, atom[1]); return
            if is_t(atom[1], "len"): atom = ("truthy", atom[1][2])
            if is_t(atom[1]) and atom[1][1] in ("sorted", "keys", "values", "items", "enumerate", "reversed"): atom = ("truthy", atom[1][2])
        d = self.decide(st, atom)
        if d is not None: yield st, d == pol; return
        w = self.foreign(atom)
        for t in (True, False):
            s = self.assume(st, atom, t)
            if s is not None:
                if w: s = s.fork(); s.mark("decides on the result of " + w)
                yield s, t == pol

    def foreign(self, atom):
        """a library function whose meaning is not modelled, in a decision"""
        for x in subterms(atom):
            if is_t(x, "call") and x[3] is None and isinstance(x[2], str) and "." in x[2] and not x[2].startswith(KNOWN_EXT) and x[2].split(".")[0] not in ("richard", "super"): return x[2]
        return None

    def entails(self, facts_state, atom, truth=True):
        return self.decide(facts_state, atom) is truth
