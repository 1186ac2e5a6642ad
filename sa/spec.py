"""Obligations over the interpreter's summaries: paths, collected elements, calls; verdict bookkeeping."""
import ast, traceback
from .program import Program, AnalysisBroken, Func, Class
from .absint import *
from .lib import Machine

HOLDS, VIOLATED, UNKNOWN = "holds", "violated", "undecided"


class Ob:
    __slots__ = ("key", "verdict", "where", "msg", "detail")
    def __init__(self, key, verdict, where, msg, detail=None):
        self.key = key; self.verdict = verdict; self.where = where; self.msg = msg; self.detail = detail or []


class Item:
    """an element of a collection built by the code: value, loops it was built in, facts under which it is built"""
    __slots__ = ("kind", "val", "chain", "facts", "alt", "key", "trace", "loops")
    def __init__(self, kind, val, chain, facts, alt=None, key=None, trace=(), loops=None):
        self.kind = kind; self.val = val; self.chain = chain; self.facts = facts; self.alt = alt; self.key = key; self.trace = trace; self.loops = loops or {}
    def __repr__(self): return f"<{self.kind} {show(self.key)+': ' if self.key else ''}{show(self.val) if self.val else ''} chain={self.chain} facts={show_facts(self.facts)}>"


class Path:
    def __init__(self, eng, st, kind, v):
        self.eng = eng; self.st = st; self.kind = kind; self.raw = v
        self.v = v if is_exc(v) else eng.freeze(st, v)
        self.returns = kind == "return"; self.raises = kind == "raise"

    @property
    def facts(self): return self.st.facts
    @property
    def imprecise(self): return self.st.imprecise

    def dec(self, atom): return self.eng.decide(self.st, atom)

    def is_true(self, v):
        """truth of a boolean value on this path"""
        if is_k(v): return bool(kv(v))
        if is_t(v, "bool"):
            d = self.dec(v[2]); return None if d is None else d == v[3]
        if is_t(v, "not"):
            d = self.is_true(v[2]); return None if d is None else not d
        if is_t(v, "anyof"):
            ds = [self.is_true(x) for x in v[2:]]
            return True if True in ds else False if all(x is False for x in ds) else None
        return self.dec(("truthy", v))

    def cmp(self, op, a, b): return self.is_true(self.eng.mk_cmp(self.st, op, a, b))

    def events(self, kind=None, name=None, deep=True, exits=False):
        """(event, chain, facts) of this path; deep: also inside loops (every alternative that may have happened)"""
        yield from walk_trace(self.eng, self.st.trace, self.st.loops, (), dict(self.st.facts), kind, name, deep)

    def calls(self, name=None, deep=True): return list(self.events("call", name, deep))

    def seq(self, v=None):
        return expand(self.eng, self.st, self.v if v is None else v)

    def msg(self): return self.v[2] if is_exc(self.v) else None

    def brief(self):
        o = ("raise " + show(self.v)) if self.raises else "return " + show(self.v)
        return [o] + ["when " + x for x in show_facts(self.facts)]


def walk_trace(eng, trace, loops, chain, facts, kind, name, deep):
    for e in trace:
        if e.kind == "loop":
            if not deep: continue
            L = e.d["L"]; lp = eng.loops.get(L)
            if lp is None: continue
            mode, allowed = loops.get(L, ("all", None))
            for i, a in enumerate(lp.alts):
                if allowed is not None and i not in allowed: continue
                yield from walk_trace(eng, a.trace, a.loops, chain + ((L, i),), {**facts, **a.facts}, kind, name, deep)
            continue
        if (kind is None or e.kind == kind) and (name is None or e.d.get("name") == name or isinstance(name, (set, tuple, frozenset)) and e.d.get("name") in name):
            yield e, chain, facts


def expand(eng, st, term):
    """elements of a list/set/dict term as Items (or None when it is not a collection the code built)"""
    if is_t(term, "tupof"): term = term[2]
    if term[0] == "tup": return [Item("one", x, (), dict(st.facts)) for x in term[1:]]
    if is_t(term, "mut"): return _exp(eng, term[3:], st.loops, (), dict(st.facts))
    if is_t(term) and term[1] in ("list", "set", "oset", "dict"):
        return _exp(eng, term[2:], st.loops, (), dict(st.facts))
    return [Item("spread", term, (), dict(st.facts))]


def _exp(eng, segs, loops, chain, facts, trace=()):
    out = []
    for g in segs:
        if g[0] == "one": out.append(Item("one", g[1], chain, facts, trace=trace, loops=loops))
        elif g[0] == "put": out.append(Item("put", g[2], chain, facts, key=g[1], trace=trace, loops=loops))
        elif g[0] in ("spread", "update"):
            s = g[1]
            if is_t(s) and s[1] in ("list", "set", "oset") and g[0] == "spread" or is_t(s, "dict") and g[0] == "update":
                out += _exp(eng, s[2:], loops, chain, facts, trace)
            else: out.append(Item(g[0], s, chain, facts, trace=trace, loops=loops))
        elif g[0] == "acc":
            lp = eng.loops.get(g[1])
            if lp is None: out.append(Item("unknown", g, chain, facts)); continue
            mode, allowed = loops.get(g[1], ("all", None))
            for i, a in enumerate(lp.alts):
                if allowed is not None and i not in allowed: continue
                em = a.emits.get(g[2], ())
                sub = _exp(eng, em, a.loops, chain + ((g[1], i),), {**facts, **a.facts}, a.trace)
                if not sub: sub = [Item("skip", None, chain + ((g[1], i),), {**facts, **a.facts}, trace=a.trace, loops=a.loops)]
                for x in sub: x.alt = x.alt or a
                out += sub
        elif g[0] == "setat" and len(g) == 3: out.append(Item("setat", g[2], chain, facts, key=g[1], trace=trace, loops=loops))
        else: out.append(Item("unknown", g, chain, facts))
    return out


def fstate(facts, loops=None):
    s = State(); s.facts = dict(facts)
    if loops: s.loops = dict(loops)
    return s


class Check:
    """collects the obligations of one property"""
    def __init__(self, prog, pid, tier="quick"):
        self.prog = prog; self.pid = pid; self.tier = tier
        self.obs = []; self.functions = set(); self.paths = 0; self.loops = 0; self.notes = []; self.engines = []
        self.callsites = 0

    # ---------------------------------------------------------------- running
    def machine(self, opaque=(), **kw):
        e = Machine(self.prog, opaque=set(opaque), **kw); self.engines.append(e); return e

    def paths_of(self, e, outs):
        ps = [Path(e, s, k, v) for s, (k, v) in outs]
        self.paths += len(ps); self.functions |= e.functions; self.loops += len(e.loops)
        return ps

    def method(self, cname, mname, opaque=(), args=None, st=None, engine=None, **kw):
        e = engine or self.machine(opaque, **kw)
        return self.paths_of(e, e.run_method(cname, mname, args, st))

    def function(self, name, opaque=(), args=None, engine=None, **kw):
        e = engine or self.machine(opaque, **kw)
        f = self.prog.function(name) if isinstance(name, str) else name
        return self.paths_of(e, e.run_function(f, args))

    # ---------------------------------------------------------------- verdicts
    def ob(self, key, ok, where, msg, detail=None):
        """ok: True holds, False violated, None undecided"""
        v = HOLDS if ok is True else VIOLATED if ok is False else UNKNOWN
        self.obs.append(Ob(key, v, where, msg, detail)); return ok

    def on_path(self, key, p, ok, msg, func, line=None):
        if ok is False and (p.imprecise or any(has_unk(a) for a in p.facts)): ok = None
        w = self.where(func, line)
        return self.ob(key, ok, w, msg, p.brief() if ok is not True else None)

    def where(self, func, line=None):
        if isinstance(func, Func): return f"{func.module.rel}:{line or func.node.lineno} {func.qual}"
        if isinstance(func, tuple): 
            c = self.prog.cls(func[0]); m = c.find(func[1])
            return self.where(m, line) if m else f"{c.module.rel}:{c.node.lineno} {c.name}.{func[1]}"
        return str(func)

    def guard(self, key, where, f, *a):
        """run one obligation group; an internal failure of the analysis makes it undecided"""
        try: return f(*a)
        except AnalysisBroken: raise
        except TooComplex as x: self.ob(key, None, where, "analysis budget: " + str(x))
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError, StopIteration) as x:
            self.ob(key, None, where, f"construct not understood: {type(x).__name__}: {x}", traceback.format_exc(limit=-4).splitlines())


SPECS = {}; TECH = {}
def spec(pid, title=None, least=1, tech=None):
    def d(f):
        SPECS[pid] = (f, least)
        if tech: TECH[pid] = tech
        return f
    return d


# ---------------------------------------------------------------- small term library
def attr(b, *names):
    for n in names: b = T("attr", b, n)
    return b
def item(b, i): return T("item", b, i if isinstance(i, tuple) else K(i))
def param(n): return T("param", n)
def call_named(v, name): return is_t(v, "call") and v[2] == name
def overwritten(p, v):
    """v is a loop's variable that a turn replaces by something without what it held: only the last turn counts"""
    while is_t(v, "mut"): v = v[2]
    if not is_t(v, "phi"): return False
    lp = p.eng.loops.get(v[2])
    if lp is None or p.st.loops.get(v[2], ("all", None))[0] != "all": return False
    al = p.st.loops.get(v[2], ("all", None))[1]
    for i, a in enumerate(lp.alts):
        if al is not None and i not in al: continue
        x = a.next.get(v[3], v)
        y = x
        while is_t(y, "mut"): y = y[2]
        if is_t(y, "phi") and y[2] != v[2] and overwritten(p, y): return True
        if is_t(y, "phi"): continue
        if x != v and not contains(x, v) and not (x[0] == "ref") and not is_k(x) and contains(x, idx(v[2])): return True
    return False

def strip_copy(v):
    """value equal to v: through copies"""
    while True:
        if is_t(v, "dict") and len(v) == 3 and v[2][0] == "update": v = v[2][1]; continue
        if is_t(v, "list") and len(v) == 3 and v[2][0] == "spread": v = v[2][1]; continue
        if is_t(v, "call") and v[2] in ("copy", "copy.copy", "copy.deepcopy"):
            v = v[3] if v[3] else v[4][0]; continue
        if is_t(v, "tupof"): v = v[2]; continue
        return v

def isinst(v, *names):
    return ("isinst", v, names[0])

def fact_true(facts, pred):
    return [a for a, t in facts.items() if t and pred(a)]

def new_field(v, name):
    if is_t(v, "new"):
        for f in v[3:]:
            if f[0] == "f" and f[1] == name: return f[2]
    return None


# ---------------------------------------------------------------- loop nests
def dom_of(eng, L):
    lp = eng.loops[L]
    d = lp.dom
    s = lp.seqs[0] if lp.seqs else d
    return s

def nests(eng, trace, loops, chain=(), facts=None):
    """leaf alternatives of all loop nests of a trace: (chain [(L, alt)], facts, complete)"""
    facts = facts or {}
    for e in trace:
        if e.kind != "loop": continue
        L = e.d["L"]; lp = eng.loops.get(L)
        if lp is None: continue
        mode, allowed = loops.get(L, ("all", None))
        for i, a in enumerate(lp.alts):
            if allowed is not None and i not in allowed: continue
            c = chain + ((L, i, mode),); f = {**facts, **a.facts}
            inner = [x for x in a.trace if x.kind == "loop"]
            yield c, f, a
            yield from nests(eng, a.trace, a.loops, c, f)

def strip_acc(t):
    if isinstance(t, tuple):
        if t and t[0] == "acc": return ("acc",)
        return tuple(strip_acc(x) for x in t)
    return t

def contradicts(f1, f2):
    n2 = {strip_acc(k): t for k, t in f2.items()}
    return any(n2.get(strip_acc(k), t) != t for k, t in f1.items())

def established(p, chain, atom, truth=True, facts=None):
    """does some complete loop nest over the same domains establish `atom` (over the indices of `chain`) for every element?
    True: yes.  None: not seen."""
    eng = p.eng
    want = [dom_of(eng, L) for L, _ in chain]
    groups = {}
    for c, f, a in nests(eng, p.st.trace, p.st.loops):
        if len(c) != len(chain): continue
        m = {idx(L1): idx(L) for (L1, _, _), (L, _) in zip(c, chain)}
        if any(mode != "all" for _, _, mode in c): continue
        if [subst(dom_of(eng, L1), m) for L1, _, _ in c] != want: continue
        key = tuple(L for L, _, _ in c)
        if key == tuple(L for L, _ in chain): continue
        ren = {subst(k, m): t for k, t in f.items()}
        if facts and contradicts(ren, facts): groups.setdefault(key, []); continue
        groups.setdefault(key, []).append(fact_entails(eng, ren, atom, truth))
    return True if any(v and all(v) for v in groups.values()) else None

def fact_entails(eng, facts, atom, truth=True):
    return eng.decide(fstate(facts), atom) is truth

def norm_eq(a, b): return ("eq",) + tuple(sorted((a, b), key=repr))


def el(eng, S, L):
    """the element of sequence S in the current iteration of loop L, in the interpreter's normal form"""
    return eng.item_term(State(), S, idx(L)) or T("item", S, idx(L))


# ---------------------------------------------------------------- predicates offered by a module class
def relation_table(c, cname, e=None):
    """construct the module abstractly; -> engine, state, module value, {predicate: Relation object} (constant predicates only)"""
    e = e or c.machine()
    cl = c.prog.cls(cname); init = cl.find("__init__")
    args = [e.param(p, c.prog.parse_type(init.ann.get(p), init.module)) for p in (init.params[1:] if init else [])]
    best = None
    for s, v in e.construct(State(), cl.qual, args, {}, None):
        if is_exc(v): continue
        rels = s.fields.get((v, "relations"))
        o = s.heap.get(rels) if rels else None
        if o is None: continue
        tab = {}
        for g in o.segs:
            if g[0] == "put" and is_k(g[1]): tab[kv(g[1])] = g[2]
        if best is None or len(tab) > len(best[3]): best = (e, s, v, tab)
    if best is None: raise AnalysisBroken(f"{cname}: no relation table found")
    return best


def run_handler(c, cname, pred, which="query_function", table=None, opaque=(), width=None, force=()):
    """paths of the predicate's query (write) function for symbolic values and context; also the Func"""
    e, s0, mod, tab = table or relation_table(c, cname, c.machine(opaque))
    if pred not in tab: raise AnalysisBroken(f"{cname} does not offer the predicate {pred}")
    fn = s0.fields.get((tab[pred], which))
    if fn is None or fn == NONE: return e, None, []
    ctx = e.param("context", ("cls", c.prog.cls("ExecutionContext").qual))
    values = e.param("values", ("list", None))
    st = s0.fork(); st.facts = {}; st.trace = (); st.loops = {}
    if width is not None: st.facts[norm_eq(T("len", values), K(width))] = True
    outs = []
    for s, v in e.call(st, fn, [values, ctx], {}, None):
        outs.append((s, ("raise", v) if is_exc(v) else ("return", v)))
    f = fn_func(c, fn, e)
    return e, f, c.paths_of(e, outs)


def fn_func(c, fn, e):
    if e is not None and fn and fn[0] == "fn" and len(fn) == 2 and fn[1] in getattr(e, "fns", {}): return e.fns[fn[1]][0]
    for x in fn:
        if isinstance(x, Func): return x
    if fn and isinstance(fn[0], str):
        for x in fn[1:]:
            if isinstance(x, str) and x in getattr(e, "lambdas", {}): return e.lambdas[x]
            if isinstance(x, tuple):
                r = fn_func(c, x, e) if x and isinstance(x[0], str) else None
                if r: return r
    return None


def strip_seq(d):
    """d without wrappers that keep elements and order; -> (base, how): how 'all' | 'reversed' | 'part' | 'reordered' | 'unordered'"""
    how = "all"
    while True:
        if is_t(d, "enumerate") or is_t(d, "tupof") or is_t(d, "listof"): d = d[2]; continue
        if is_t(d, "list") and len(d) == 3 and d[2][0] == "spread": d = d[2][1]; continue
        if is_t(d, "reversed"): how = {"all": "reversed", "reversed": "all"}.get(how, how); d = d[2]; continue
        if is_t(d, "slice"):
            lo, hi, st = d[3:6]
            if lo in (NONE, K(0)) and hi == NONE and st in (NONE, K(1)): d = d[2]; continue
            if lo == NONE and hi == NONE and st == K(-1): how = {"all": "reversed", "reversed": "all"}.get(how, how); d = d[2]; continue
            how = "part"; d = d[2]; continue
        if is_t(d, "sorted"): how = "reordered" if how != "part" else how; d = d[2]; continue
        if is_t(d, "set") and len(d) == 3 and d[2][0] == "spread": how = "unordered" if how != "part" else how; d = d[2][1]; continue
        if is_t(d, "mut") and len(d) >= 4 and all(s[0] == "base" for s in d[3:]): d = d[2]; continue
        return d, how


def covers(p, L, S, loops=None):
    """how loop L of the path runs over sequence S: 'all' in order, 'reversed'/'reordered'/'unordered', 'part', or None: another loop"""
    lp = p.eng.loops[L]
    for d in [lp.dom] + list(lp.seqs or []):
        b, how = strip_seq(d)
        if b != S and is_t(b, "zip"):
            for x in b[2:]:
                xb, xh = strip_seq(x)
                if xb == S: b = S; how = xh if how == "all" else how if xh == "all" else "part"; break
        if b == S:
            if how == "all" and (loops or p.st.loops).get(L, ("all", None))[0] != "all": return "part"
            return how
    return None


def over(p, L, S, loops=None):
    """verdict for 'every element of S, in order': True / False / None"""
    w = covers(p, L, S, loops)
    return None if w is None else w == "all"
