"""X07: earlier sentences influence later ones only through facts, rules, grammar, context and output."""
from .spec import spec, TECH
from .specs_effects import View, view
from .memo import memo_of, Carried, STATE, SHORT

# properties about what a part answers over a whole dialog, by where the part lives
ALSO = (("BasicParser.", ("G06",)), ("EarleyParser.", ("G06",)), ("GrammarRules.", ("G06",)), ("BasicGenerator.generate_output", ("W02",)), ("Model.", ("S01", "S02", "I01")), ("InferenceModule.", ("I01",)),
        ("Solver.", ("S01", "S02")), ("SemanticComposer.", ("C02",)), ("AtomExecutor.", ("P02",)), ("SimpleDataSource.", ("D06",)), ("Sqlite3DataSource.", ("D06",)),
        ("SimpleMemoryModule.", ("D06",)), ("CoreModule.", ("B05",)), ("Multilingual.", ("P04",)))


def grown(prog, V, M):
    """containers in fields of long-lived objects that some call grows, found on the effect summaries"""
    out = []; seen = {(x.func.qual, x.cell) for x in M.found}
    for f, why, effs in V.effects():
        if id(f.node) in M.setup: continue
        for (l, key, site), (v, sure, how, own) in effs:
            if own is None or own[2] < 1: continue
            cell = ("a", own[0], own[1])
            if not M.tracked(cell) or not M.container(cell): continue
            what = f"{own[0].split('.')[-1]}.{own[1]}"
            if any(q == what for _, q in seen): continue
            fam = M.family(cell)
            reads = [(g, n) for g in M.funcs for c, n in M.facts[id(g.node)][1] if c in fam]
            writes = [(g, w) for g in M.funcs if id(g.node) not in M.setup for w in M.facts[id(g.node)][0] if w["cell"] in fam]
            w = dict(cell=cell, node=type("N", (), {"lineno": site[1]})())
            n = len(M.found)
            M.history(what, cell, f, w, reads, any(w2["how"] in ("clear", "bind") for _, w2 in writes))
            out += M.found[n:]; del M.found[n:]; seen.add((f.qual, what))
    return out


def carried(c):
    k = "_carried"
    if not hasattr(c.prog, k):
        v = View(type("Quiet", (), dict(prog=c.prog, pid=c.pid, functions=set(), callsites=0, ob=lambda *a: None))())
        M = memo_of(c.prog, lambda: v.roots)
        setattr(c.prog, k, (M, M.found + grown(c.prog, v, M)))
    return getattr(c.prog, k)


@spec("X07", least=3, tech="flow")
def no_old_answers(c):
    V = view(c); M, found = carried(c)
    c.functions |= {f.qual for f in M.funcs}
    for x in found: c.ob("X07." + x.kind, x.verdict, f"{x.func.module.rel}:{x.line} {x.func.qual}", x.msg)
    bad = {id(x.func.node) for x in found}
    n = 0
    for f in M.funcs:
        if id(f.node) in M.setup or id(f.node) in bad: continue
        n += 1
        c.ob("X07.carried", True, c.where(f), f"{len(M.facts[id(f.node)][0])} writes to places that outlive the call, none of which is read back into a result")


def stale_for(c):
    """a remembered value that a function of this property answers with"""
    if c.pid in TECH: return
    quals = set(c.functions)
    if not quick(c.prog): return
    M, found = carried(c)
    for x in found:
        if x.verdict is not False: continue
        also = any(("." + x.func.qual).find("." + part) >= 0 and c.pid in pids for part, pids in ALSO)
        if x.func.qual not in quals and not also: continue
        c.ob(c.pid + ".memo", False, f"{x.func.module.rel}:{x.line} {x.func.qual}", x.msg)


def quick(prog):
    """is there any place that could carry a value (cheap test before the whole-program analyses)"""
    k = "_quick"
    if not hasattr(prog, k): setattr(prog, k, _quick(prog))
    return getattr(prog, k)


def _quick(prog):
    from .memo import Memo, is_container, own, GROW
    import ast
    class Light(Memo):
        def judge(self): pass
        def defaults(self): pass
        def decorated(self): pass
        def snapshots(self): pass
    M = Light(prog, None)
    for f in M.funcs:
        W, R, a = M.facts[id(f.node)]
        if id(f.node) not in M.setup and W: return True
        for q, d in f.defaults.items():
            if is_container(d) and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and isinstance(n.func.value, ast.Name) and n.func.value.id == q or isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == q for n in own(f.node)): return True
        if any("cache" in d or "memo" in d for d in f.decorators): return True
    # a container in a field of a long-lived class that is none of the known ones
    for cl in prog.classes.values():
        for nm in set(cl.init_ann()) | set(cl.ann) | set(cl.attrs) | {n.attr for m in cl.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}:
            cell = ("a", cl.qual, nm)
            if M.tracked(cell) and M.container(cell) and (cl.name, nm) not in KNOWN: return True
    return False


KNOWN = {("Model", "modules"), ("System", "reader_pipeline"), ("SparqlDataSource", "result_cache_path"), ("SparqlDataSource", "headers"), ("Relation", "arguments"), ("Relation", "argument_sizes"),
         ("Multilingual", "processors"), ("LanguageSelector", "locales")}
