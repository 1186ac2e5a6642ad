"""Whole-program properties decided on the effect summaries: G02, X02, X05."""
import ast
from .program import AnalysisBroken
from .spec import spec, HOLDS, VIOLATED, UNKNOWN
from .effects import effects_of, root, on_path, E0

# classes whose instances are values: made once, only read afterwards
DATA = ("GrammarRule", "RuleConstituent", "ParseTreeNode", "Variable", "ReifiedVariable", "InferenceRule", "SemanticTemplate", "BlockResult", "ProcessResult",
        "ExecutionContext", "ChartState", "BasicParserProduct", "SemanticComposerProduct", "AtomExecutorProduct", "LanguageSelectorProduct")
# wiring that is done once, while a system or module is put together
FIXED = {("SentenceRequest", "text")}
CONFIG = {("ControlBlock", "next_block"), ("Relation", "query_function"), ("Relation", "write_function")}


class View:
    """the effects as seen at the entry points of the package"""
    def __init__(self, c):
        self.c = c; self.prog = c.prog; self.E = E = effects_of(c.prog)
        self.registered = self.escaping()
        self.roots = {}
        for fid, f in E.funcs.items():
            why = self.is_root(fid, f)
            if why: self.roots[fid] = why
        self.stored = self.field_aliases()
        c.functions |= {f.qual for f in E.funcs.values()}; c.callsites = sum(len(x) for x in E.calls.values())
        if not E.converged: c.ob(c.pid + ".fixpoint", None, "package", "the effect summaries did not reach a fixed point")

    def escaping(self):
        """functions whose reference is stored somewhere: they may be called from anywhere"""
        out = set()
        for S in self.E.sum.values():
            for m in S.heap.values():
                for v, d in m.values():
                    for l in v:
                        if l[0] in ("bm", "fn"): out.add(l[1])
            for v, s, h, o in S.effects.values():
                for l in v:
                    if l[0] in ("bm", "fn"): out.add(l[1])
        return out

    def is_root(self, fid, f):
        if f.parent is not None or isinstance(f.node, ast.Lambda): return None
        if f.cls is not None:
            for b in f.cls.mro()[1:]:
                m = b.methods.get(f.name)
                if m is not None and m.stub() and f.name != "__init__": return "implements " + b.name
            if f.name.startswith("__") and f.name.endswith("__"): return "special method"
        if fid in self.registered: return "registered function"
        callers = {k for k in self.E.deps.get(fid, ()) if k != fid}
        if not callers: return "entry point"
        if not f.name.startswith("_") and not self.reaches_root(fid): return "entry point"
        return None

    def reaches_root(self, fid, seen=None):
        """some chain of callers leads to a function without callers"""
        seen = {fid}; todo = [fid]
        while todo:
            k = todo.pop()
            up = {x for x in self.E.deps.get(k, ()) if x != k}
            if not up and k != fid: return True
            f = self.E.funcs[k]
            if k != fid and (k in self.registered or f.cls is not None and any(b.methods.get(f.name) is not None and b.methods[f.name].stub() for b in f.cls.mro()[1:])): return True
            for x in up - seen: seen.add(x); todo.append(x)
        return False

    def field_aliases(self):
        """(class, field, depth) -> objects from outside or shared objects that the class keeps there"""
        out = {}
        for fid in self.roots:
            f = self.E.funcs[fid]
            for (l, key, site), (v, sure, how, own) in self.E.sum[fid].effects.items():
                if own is None: continue
                cn = self.prog.classes[own[0]].name
                for x in v:
                    if root(x)[0] in ("p", "g", "ca", "d", "fo"):
                        if root(x)[0] == "p" and self.is_self(root(x)): continue
                        out.setdefault((cn, own[1], own[2] if key != "[]" else own[2]), set()).add(x)
        return out

    def alias(self, cn, name, d):
        """what the class (or a class above or below it) keeps there"""
        out = []
        for (c2, n2, d2), v in self.stored.items():
            if n2 != name or d2 != d: continue
            if c2 == cn or self.related(c2, cn): out += sorted(v, key=repr)
        return out

    def related(self, a, b):
        ca = [x for x in self.prog.classes.values() if x.name == a]; cb = [x for x in self.prog.classes.values() if x.name == b]
        return any(x in y.mro() or y in x.mro() for x in ca for y in cb)

    def is_self(self, p):
        f = self.E.funcs[p[1]]
        return bool(f.params) and p[2] == f.params[0] and f.cls is not None and not f.static

    def name(self, l):
        k = l[0]
        if k == "p": return l[2].lstrip("^")
        if k == "f": return self.name(l[1]) + (l[2] if l[2].startswith(".") else "[...]")
        if k == "o": return "a " + (l[2][1].split(".")[-1] if l[2] and l[2][0] == "cls" else "part") + " in " + self.name(l[1])
        if k == "g": return f"{l[1].split('.')[-1]}.{l[2]} (module level)"
        if k == "ca": return f"{l[1].split('.')[-1]}.{l[2]} (class level)"
        if k == "d": return f"the default value of {l[2]} of {self.E.funcs[l[1]].name}()"
        if k == "fo": return "an object returned by a predicate or callback"
        return "an object"

    def where(self, site): return f"{site[0]}:{site[1]}"

    def effects(self):
        for fid, why in self.roots.items():
            f = self.E.funcs[fid]
            yield f, why, list(self.E.sum[fid].effects.items())

    def cls_name(self, own): return self.prog.classes[own[0]].name if own else None

    def family(self, cn, names):
        c = next((x for x in self.prog.classes.values() if x.name == cn), None)
        return cn in names or c is not None and any(b.name in names for b in c.mro())


def view(c):
    k = "_view"
    if not hasattr(c.prog, k): setattr(c.prog, k, View(c))
    v = getattr(c.prog, k); v.c = c
    c.functions |= {f.qual for f in v.E.funcs.values()}; c.callsites = sum(len(x) for x in v.E.calls.values())
    if not v.E.converged: c.ob(c.pid + ".fixpoint", None, "package", "the effect summaries did not reach a fixed point")
    return v


@spec("X05", least=60, tech="flow")
def inputs_unchanged(c):
    V = view(c)
    for f, why, effs in V.effects():
        bad = 0
        for (l, key, site), (v, sure, how, own) in effs:
            r = root(l); cn = V.cls_name(own)
            if f.name == "__init__" and r[0] == "p" and V.is_self(r) and l == r: continue        # the object under construction
            if cn and any((b.name, own[1]) in CONFIG for b in V.prog.classes[own[0]].mro()): continue
            what = None
            if r[0] == "fo" and own is None: what = f"changes {V.name(l)}"
            elif own is None and r[0] == "p" and not (V.is_self(r) and l == r): what = f"changes what was passed as {V.name(l)}"
            elif own is not None and V.family(cn, DATA) and not (V.is_self(r) and f.name == "__init__"): what = f"changes {own[1]} of an existing {cn}"
            elif own is not None and (cn, own[1]) in FIXED: what = f"changes {own[1]} of an existing {cn}"
            elif own is not None and own[2] >= 1:
                # a list or dict the object keeps: it must be its own
                al = V.alias(cn, own[1], own[2] - 1)
                al = [x for x in al if root(x)[0] in ("p", "fo") and not (x[0] == "f" and x[2].startswith(".")) and V.E.type_of(x) and V.E.type_of(x)[0] in ("list", "dict", "set", "oset", "tuple") or root(x)[0] == "fo"]
                if al: what = f"changes {own[1]} of {cn}, where it keeps {V.name(al[0])} as it was passed in"
            if what is None: continue
            bad += 1
            c.ob("X05.input", False if sure else None, f"{V.where(site)} {f.qual}", f"{what} ({how}), reached from {f.qual} ({why})")
        if not bad: c.ob("X05.input", True, c.where(f), f"{len(effs)} effects, none on what it was given")
    # iterating does not use up what is iterated over
    for cl in V.prog.classes.values():
        it = cl.methods.get("__iter__")
        if it is None: continue
        S = V.E.sum[id(it.node)]
        selfp = ("p", id(it.node), it.params[0])
        again = selfp in S.ret and any(l == selfp or root(l) == selfp for m in [cl.find("__next__")] if m for (l, k, s) in _as_self(V, m, selfp))
        c.ob("X05.iterate", not again, c.where(it), "an iteration over the object uses it up: a second one yields other elements" if again else "iterating leaves the object as it was")


def _as_self(V, m, selfp):
    for (l, k, s) in V.E.sum[id(m.node)].effects:
        r = root(l)
        if r == ("p", id(m.node), m.params[0]): yield (selfp, k, s)


@spec("X02", least=40, tech="flow")
def no_shared_state(c):
    V = view(c)
    for f, why, effs in V.effects():
        bad = 0
        for (l, key, site), (v, sure, how, own) in effs:
            r = root(l); cn = V.cls_name(own); what = None
            if cn == "Logger": continue          # decided by X02.logger
            if own is None and r[0] == "p" and V.E.funcs[r[1]].defaults.get(r[2]) is not None and V.E.mutable_value(V.E.funcs[r[1]].defaults[r[2]], V.E.funcs[r[1]].module):
                what = f"changes the default value of {r[2]}, which all calls share"
            elif r[0] in ("g", "ca", "d"): what = f"changes {V.name(r)}, which all instances share"
            else:
                x = l
                while what is None:
                    o = V.E.owner(x[1], x[2]) if x[0] == "f" else None
                    if o is not None:
                        for a in V.alias(V.cls_name(o), o[1], o[2]):
                            if a[0] in ("g", "ca", "d"): what = f"changes {V.name(a)}, which is shared through {V.cls_name(o)}.{o[1]}"; break
                    if x[0] not in ("f", "o"): break
                    x = x[1]
            if what is None: continue
            bad += 1
            c.ob("X02.shared", False if sure else None, f"{V.where(site)} {f.qual}", f"{what} ({how}), reached from {f.qual} ({why})")
        if not bad: c.ob("X02.shared", True, c.where(f), f"{len(effs)} effects, none on shared objects")
    # results are the caller's: solutions do not alias the binding they started from
    for cn, mn in (("Solver", "solve"),):
        m = V.prog.method(cn, mn); S = V.E.sum[id(m.node)]
        for l in S.ret:
            if l[0] == "n":
                for x in S.heap.get(l, {}).get("[]", (E0, 0))[0]:
                    if root(x)[0] == "p" and x[0] == "p" or root(x)[0] == "d":
                        c.ob("X02.result", False, c.where(m), f"the result contains {V.name(x)} itself")
                        break
                else: continue
                break
            if l[0] in ("p", "d"): c.ob("X02.result", False, c.where(m), f"the result is {V.name(l)} itself"); break
        else: c.ob("X02.result", True, c.where(m), "the solutions are new objects")
    for name in ("lru_cache", "cache", "functools.lru_cache", "functools.cache"):
        for f in V.E.funcs.values():
            for d in f.decorators:
                if d.split("(")[0] == name:
                    muts = [l for l in V.E.sum[id(f.node)].ret if l[0] == "n" and not l[2] in ("tuple", "ext")]
                    c.ob("X02.cached", None if not muts else False, c.where(f), "every caller gets the same cached object")
    logger_off(c, V)


def logger_off(c, V):
    """the logger that requests share by default is off, and nothing is written to a logger that is off"""
    from .absint import K
    from .spec import T, attr, param
    lm = V.prog.cls("Logger").module
    b = lm.binds.get("nullLogger")
    calls = [n for n in ast.walk(lm.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "nullLogger"]
    off = any(n.func.attr == "log_no_tests" for n in calls) and not any(n.func.attr != "log_no_tests" for n in calls)
    c.ob("X02.logger", True if off else None, f"{lm.rel}", "the shared default logger is switched off when it is made")
    users = [m for m in V.prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "nullLogger" and m is not lm]
    c.ob("X02.logger", not users, users[0].rel if users else lm.rel, "the shared default logger is changed" if users else "nothing else touches the shared default logger")
    # every write to the entries by add_process_result happens when the logger is active
    m = V.prog.method("Logger", "add_process_result")
    e = c.machine(("is_active",))
    ps = c.method("Logger", "add_process_result", engine=e)
    for p in ps:
        act = [t for a, t in p.facts.items() if a[0] == "truthy" and _mentions(a, "is_active")]
        writes = [x for x in p.events() if x[0].kind in ("mutate", "op", "setattr") or x[0].kind == "call" and str(x[0].d.get("name", "")).startswith("add_") or x[0].kind == "call" and x[0].d.get("name") == "log"]
        if not writes: c.ob("X02.logger", True, c.where(m), "nothing is written"); continue
        c.on_path("X02.logger", p, True if act and all(act) else False, "a logger that is off is written to", m)


def _mentions(t, name):
    if t == name: return True
    return isinstance(t, tuple) and any(_mentions(x, name) for x in t)


@spec("G02", least=40, tech="flow")
def grammar_unchanged(c):
    V = view(c)
    G = ("GrammarRules", "GrammarRule", "RuleConstituent")
    for f, why, effs in V.effects():
        bad = 0
        own_cls = f.cls is not None and V.family(f.cls.name, ("GrammarRules",))
        learn = f.cls is not None and V.family(f.cls.name, ("SomeModule",)) and id(f.node) in V.registered
        for (l, key, site), (v, sure, how, own) in effs:
            if own is None: continue
            cn = V.cls_name(own)
            if not V.family(cn, G): continue
            r = root(l)
            if f.name == "__init__" and r[0] == "p" and V.is_self(r): continue
            if V.family(cn, ("GrammarRules",)) and (learn or own_cls and f.name == "add_rule"): continue
            bad += 1
            c.ob("G02.grammar", False if sure else None, f"{V.where(site)} {f.qual}", f"changes {own[1]} of a {cn} that exists already ({how}), reached from {f.qual} ({why})")
        if not bad: c.ob("G02.grammar", True, c.where(f), f"{len(effs)} effects, none on a grammar or its rules")
