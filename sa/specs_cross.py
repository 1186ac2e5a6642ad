"""X06: template application and the binding of variables in structures."""
from .spec import *
from .specs_pipeline import is_call
from .program import Missing
from .spec import expand, covers
SELF = param("self")


@spec("X06", least=12)
def X06(c):
    c.guard("X06.apply", "apply", apply_, c)
    c.guard("X06.bind", "bind_variables", bind_, c)


def recursive_of(c, f):
    """functions of f's module that call themselves"""
    out = set()
    for g in c.prog.all_functions():
        if g.module is f.module and g.cls is None and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == g.name for n in ast.walk(g.node)): out.add(g.name)
    return out


def apply_(c):
    f = next((g for g in c.prog.all_functions() if g.name == "apply" and g.module.rel.endswith("grammar_functions.py")), None)
    if f is None: raise Missing("function apply not found")
    rec = recursive_of(c, f); t = param(f.params[0]); vals = param(f.vararg) if f.vararg else param(f.params[1]); body, tas = attr(t, "body"), attr(t, "args")
    helpers = set(); n = 0
    for p in c.function(f, opaque=rec):
        if p.raises: c.on_path("X06.apply", p, False if p.v[3] == "explicit" and not any(contains(a, T("len", vals)) for a in p.facts) else None if p.v[3] != "explicit" else True, "applying a template fails", f); continue
        v = strip_copy(p.v); n += 1
        if is_t(v, "phi"):
            init = p.eng.freeze(p.st, p.eng.loops[v[2]].phi_init.get(v[3])); nx = [p.eng.freeze(p.st, a.next.get(v[3], v)) for a in p.eng.loops[v[2]].alts]
            seq = strip_copy(init) == body and all(is_t(x, "call") and x[2] in rec and v in x[4] for x in nx)
            c.on_path("X06.at-once", p, False if seq else None, "the placeholders are replaced one after the other: a value that contains the placeholder of a later argument is changed", f); continue
        if v == body: c.on_path("X06.apply", p, p.dec(("truthy", vals)) is False or False, "the template is not applied", f); continue
        if not (is_t(v, "call") and v[2] in rec): c.on_path("X06.apply", p, None, "the application of the template is not understood", f); continue
        args = list(v[4])
        ds = [i for i, a in enumerate(args) if is_t(a, "dict") or is_t(a, "zip") or is_t(a, "list")]
        bs = [i for i, a in enumerate(args) if strip_copy(a) == body]
        if len(bs) != 1 or len(ds) != 1: c.on_path("X06.apply", p, None, "the application of the template is not understood", f); continue
        flags = [i for i, a in enumerate(args) if a in (K(True), K(False))]
        for i in flags: c.on_path("X06.shape", p, args[i] == K(True), "the body of the template does not stay a list", f)
        pairs(c, p, f, args[ds[0]], tas, vals)
        helpers.add((v[2], bs[0], ds[0], flags[0] if flags else None))
    c.ob("X06.found", True if n else None, c.where(f), "apply analysed")
    for h in sorted(helpers, key=str): helper(c, f, *h)


def pairs(c, p, f, D, tas, vals):
    its = p.seq(D)
    if not its: c.on_path("X06.pairs", p, None, "which value replaces which placeholder is not understood", f); return
    for i in its:
        if len(i.chain) != 1: c.on_path("X06.pairs", p, None, "which value replaces which placeholder is not understood", f); continue
        L = i.chain[0][0]; w = covers(p, L, vals) or covers(p, L, tas)
        if w is None: c.on_path("X06.pairs", p, None, "the loop over the values is not understood", f); continue
        a, v = el(p.eng, tas, L), el(p.eng, vals, L)
        if i.kind == "skip" or w != "all": c.on_path("X06.pairs", p, False, "a value is not filled in", f); continue
        if i.kind != "put": c.on_path("X06.pairs", p, None, "which value replaces which placeholder is not understood", f); continue
        ok = i.key == T("item", a, K(0)) and strip_copy(i.val) == v
        if not ok: ok = False if is_t(i.key, "item") and (is_t(i.val, "item") or contains(i.val, v)) else None
        c.on_path("X06.pairs", p, ok, "a value is filled in for another placeholder", f)


def helper(c, f, name, ib, idx_d, iflag):
    g = next(x for x in c.prog.all_functions() if x.name == name and x.module is f.module and x.cls is None)
    A, D = param(g.params[ib]), param(g.params[idx_d]); F = param(g.params[iflag]) if iflag is not None else None; n = 0
    for p in c.function(g, opaque={name}):
        if p.raises: c.on_path("X06.replace", p, False if p.v[3] == "explicit" else None, "replacing fails", g); continue
        v = p.v
        if v == A: c.on_path("X06.replace", p, p.dec(("truthy", A)) is False or p.dec(("truthy", D)) is False or (False if not any(contains(a, A) for a in p.facts) else None), "nothing is replaced", g); continue
        n += 1; tup = is_t(v, "tupof") or v[0] == "tup"
        if F is not None: want = p.dec(("truthy", F))
        else:
            l, t = p.dec(("isinst", A, "list")), p.dec(("isinst", A, "tuple")); want = True if l or t is False else False if t or l is False else None
        c.on_path("X06.shape", p, None if want is None or not (tup or is_t(v, "list")) else tup != want, "a list becomes a tuple or the other way around", g)
        its = p.seq(v)
        if its is None: c.on_path("X06.replace", p, None, "the result is not understood", g); continue
        if not its and not p.st.loops: c.on_path("X06.replace", p, False, "all atoms are lost", g); continue
        for i in its:
            if len(i.chain) == 2 and covers(p, i.chain[0][0], A) == "all":
                x = el(p.eng, A, i.chain[0][0]); M = i.chain[1][0]; b, how = strip_seq(p.eng.loops[M].dom)
                if b == T("item", D, x):
                    ok = how == "all" and i.kind == "one" and i.val == T("item", b, idx(M)) and not [a for a in i.facts if contains(a, T("item", b, idx(M)))]
                    q = Path(p.eng, fstate(i.facts), "return", NONE)
                    c.on_path("X06.replace", p, (q.dec(("in", x, D)) or None) if ok else False if i.kind == "skip" or how != "all" or i.val == T("item", b, idx(M)) and i.kind == "one" and not single(p, i, M) else None, "the atoms of the value are not all put in the place of the placeholder", g); continue
            if len(i.chain) != 1: c.on_path("X06.replace", p, None, "the result is not understood", g); continue
            L = i.chain[0][0]; w = covers(p, L, A)
            if w is None: c.on_path("X06.replace", p, None, "the loop over the atoms is not understood", g); continue
            if w != "all": c.on_path("X06.replace", p, False, "not all atoms are kept, in order", g); continue
            if i.kind == "skip": c.on_path("X06.replace", p, False, "an atom is lost", g); continue
            element(c, p, g, i, el(p.eng, A, L), A, D, F, name, ib, idx_d, iflag)
    c.ob("X06.found", True if n else None, c.where(g), f"{name} analysed")


def single(p, i, M):
    """every other turn of this loop emits too"""
    return all(any(a.emits.values()) for a in p.eng.loops[M].alts)


def element(c, p, g, i, x, A, D, F, name, ib, idx_d, iflag):
    q = Path(p.eng, fstate(i.facts), "return", NONE)
    inn, tu, li, st = q.dec(("in", x, D)), q.dec(("isinst", x, "tuple")), q.dec(("isinst", x, "list")), q.dec(("isinst", x, "str"))
    rep = i.val == T("item", D, x) or is_call(i.val, "get", D)
    if rep:
        c.on_path("X06.replace", p, i.kind == "spread" and (inn is True or None), "the atoms of the value are not put in the place of the placeholder", g); return
    if is_t(i.val, "call") and i.val[2] == name:
        a = list(i.val[4]); ok = i.kind == "one" and len(a) > max(ib, idx_d) and a[ib] == x and a[idx_d] == D
        if not ok: ok = False if i.kind == "spread" or len(a) > max(ib, idx_d) and (a[ib] == A or a[idx_d] != D) else None
        c.on_path("X06.depth", p, ok, "placeholders inside an atom are not replaced in their place", g)
        if iflag is not None:
            fl = a[iflag] if len(a) > iflag else None
            t = q.is_true(fl) if fl is not None else None
            ok = None if t is None else (t is True) if li else (t is False) if tu else None if fl != F else False
            c.on_path("X06.shape", p, ok, "a list inside an atom becomes a tuple or the other way around", g)
        c.on_path("X06.replace", p, True if tu or li else None, "", g)
        return
    if i.val == x:
        if i.kind == "spread": c.on_path("X06.replace", p, False, "an atom is taken apart", g); return
        c.on_path("X06.depth", p, True if tu is False and li is False or st is True else False, "placeholders inside an atom are not replaced", g)
        c.on_path("X06.replace", p, True if inn is False or st is False or inn is None and (tu or li) else False if inn is True or inn is None else None, "a placeholder is not replaced", g)
        return
    c.on_path("X06.replace", p, False if is_k(i.val) or is_t(i.val, "item") else None, "an atom is changed", g)


def bind_(c, pid="X06"):
    f = next((g for g in c.prog.all_functions() if g.name == "bind_variables"), None)
    if f is None: raise Missing("function bind_variables not found")
    X, B = param(f.params[0]), param(f.params[1]); n = 0; VAR = c.prog.cls("Variable").qual; name = attr(X, "name")
    for p in c.function(f, opaque={"bind_variables"}):
        if p.raises: c.on_path(pid + ".bind", p, False if p.v[3] == "explicit" else None, "binding fails", f); continue
        n += 1; v = p.v
        li, tu, va = p.dec(("isinst", X, "list")), p.dec(("isinst", X, "tuple")), p.dec(("isinst", X, VAR)); inn = p.dec(("in", name, B))
        if va is True: li = tu = False
        if strip_copy(v) == X and v == X:
            # unchanged: neither a list, nor a tuple, nor a bound variable
            c.on_path(pid + ".bind.depth", p, True if li is False and tu is False else False, "variables inside a list or tuple are not bound", f)
            c.on_path(pid + ".bind.bound", p, True if va is False or inn is False else False, "a bound variable is not replaced", f)
            continue
        if v == T("item", B, name) or is_call(v, "get", B):
            d = v[4] if is_t(v, "call") else None
            c.on_path(pid + ".bind.bound", p, True if va is True and (inn is True or d and len(d) == 2 and d == (name, X)) else False if va is False or d else None, "something that is not a bound variable is replaced", f); continue
        its = p.seq(v)
        if its is None or not (is_t(v, "list") or is_t(v, "tupof")):
            again = is_t(v, "call") and is_call(v, "bind_variables") and v[4] and v[4][0] == T("item", B, name)
            c.on_path(pid + ".bind.bound", p, False if again or is_k(v) or is_t(v, "set") else None, "the result is not understood", f); continue
        c.on_path(pid + ".bind.shape", p, True if is_t(v, "list") and li is True or is_t(v, "tupof") and tu is True else False if li or tu else None, "a list becomes a tuple or the other way around", f)
        if not its and not p.st.loops: c.on_path(pid + ".bind.depth", p, False, "the elements are lost", f)
        for i in its:
            if len(i.chain) != 1: c.on_path(pid + ".bind.depth", p, None, "the result is not understood", f); continue
            L = i.chain[0][0]; w = covers(p, L, X); x = el(p.eng, X, L)
            if w is None: c.on_path(pid + ".bind.depth", p, None, "the loop over the elements is not understood", f); continue
            if w != "all" or i.kind == "skip": c.on_path(pid + ".bind.depth", p, False, "elements are lost or reordered", f); continue
            ok = i.kind == "one" and is_call(i.val, "bind_variables") and i.val[4] == (x, B)
            if not ok: ok = False if i.kind == "spread" or i.val == x or is_call(i.val, "bind_variables") and i.val[4][:1] == (x,) else None
            c.on_path(pid + ".bind.depth", p, ok, "variables inside a list or tuple are not bound, or the structure is flattened", f)
    c.ob(pid + ".bind.found", True if n >= 4 else None, c.where(f), "bind_variables analysed")


def final_value(p, e):
    """what was stored in a field, as it is at the end of the path (a collection may be filled after it was stored)"""
    return p.eng.freeze(p.st, e.d.get("raw", e.d["value"]))


def contained(p, ok, fld):
    if ok: return True
    if p.st.loops or p.imprecise: return None
    return False if is_k(p.v) or is_t(p.v, "not") else None


def set_add(c, key, fld):
    """OrderedSet.add: the element is there afterwards, behind those that were there before; one that was there keeps its place"""
    f = c.prog.method("OrderedSet", "add"); x = param(f.params[1])
    def brings(v):
        """does this dict or list bring x? True | None"""
        if is_t(v, "dict", "list", "set"): return True if len(v) == 3 and v[2][0] in ("put", "one") and v[2][1] == x else None
        if v[0] == "tup": return v[1:] == (x,) or None
        if is_call(v, "fromkeys") and v[4]: return brings(v[4][0])
        return None
    for p in c.method("OrderedSet", "add"):
        there = p.dec(("in", x, fld)); had = there; known = True; moved = False
        if p.raises: c.on_path(key, p, False if p.v[3] == "explicit" else None, "an added element is not kept", f); continue
        for e, ch, fa in p.events():
            if ch: known = False
            name, at = e.d.get("name"), e.d.get("target") or e.d.get("recv")
            if e.kind == "setattr" and attr(e.d["base"], name) == fld:
                v = final_value(p, e)
                if is_call(v, "fromkeys") and v[4]: v = v[4][0]
                segs = v[2:] if is_t(v, "dict", "list") else ()
                old = [i for i, s in enumerate(segs) if s[0] in ("update", "base", "spread") and s[1] == fld]; new = [i for i, s in enumerate(segs) if s[0] in ("put", "one") and s[1] == x]
                if len(segs) == 2 and old and new:
                    if new[0] < old[0]: moved = True
                    there = True
                elif is_t(v, "dict", "list") and not old and had is not True and not any(contains(s, fld) for s in segs): moved = True; there = bool(new)
                else: known = False
            elif at == fld:
                k = e.d.get("key") if e.kind == "put" else None
                if e.kind == "put": there = True if k == x else there; known = known and k == x
                elif e.kind == "mutate":
                    op = e.d.get("op")
                    if op in ("setdefault", "add", "put") and e.args[:1] == (x,): there = True
                    elif op in ("del", "delitem", "rem", "remove", "pop", "discard") and e.args[:1] == (x,): moved = moved or had is not False; there = False
                    else: known = False
                elif e.kind == "call" and e.name in ("__setitem__", "setdefault") and e.args[:1] == (x,): there = True
                elif e.kind == "call" and e.name == "update" and len(e.args) == 1 and brings(e.args[0]): there = True
                elif e.kind == "call" and e.name == "pop" and e.args[:1] == (x,): moved = moved or had is not False; there = False
                elif e.kind == "call" and e.name in ("__contains__", "get", "keys", "__len__", "__iter__"): pass
                elif e.kind == "call": known = False
        if moved: c.on_path(key, p, False, "adding an element changes the order of those that are there", f)
        elif there is True: c.on_path(key, p, True if known else None, "an added element is not kept", f)
        else: c.on_path(key, p, None if not known or p.imprecise else False, "an added element is not kept", f)


def ordered_set(c, pid):
    """the repository's OrderedSet does what the analysis takes it to do: the distinct elements, in the order they came in"""
    if not any(k.name == "OrderedSet" for k in c.prog.classes.values()): return
    m = lambda nm: c.prog.method("OrderedSet", nm)
    key = pid + ".ordered-set"
    f = m("__init__"); it = param(f.params[1]); fld = None
    for p in c.method("OrderedSet", "__init__"):
        if p.raises: c.on_path(key + ".init", p, False if p.v[3] == "explicit" else None, "a set cannot be made", f); continue
        sets = [e for e, ch, fa in p.events("setattr") if e.d.get("base") == SELF]
        if len(sets) != 1: c.on_path(key + ".init", p, None, "the elements are kept in a way that is not understood", f); continue
        fld = attr(SELF, sets[0].d["name"]); v = final_value(p, sets[0])
        if v == T("dict"): ok = True if p.dec(("truthy", it)) is False or p.dec(("isnone", it)) is True else False
        elif is_call(v, "fromkeys"): ok = True if v[4][:1] == (it,) else False if v[4] and is_t(v[4][0]) and contains(v[4][0], it) and v[4][0][1] not in ("list", "tupof") else None
        elif is_t(v, "dict"):
            its = expand(p.eng, p.st, v); ok = True
            for i in its:
                if i.kind == "skip" or len(i.chain) != 1: ok = False if i.kind == "skip" else None; break
                if covers(p, i.chain[0][0], it) != "all" or (i.key if i.key is not None else i.val) != el(p.eng, it, i.chain[0][0]): ok = None; break
        else: ok = False if is_k(v) else None
        c.on_path(key + ".init", p, ok, "a set does not hold the given elements in their order", f)
    if fld is None: return
    set_add(c, key + ".add", fld)
    f = m("__contains__"); x = param(f.params[1])
    for p in c.method("OrderedSet", "__contains__"):
        if p.raises: continue
        ok = is_call(p.v, "__contains__", fld) and p.v[4] == (x,) or p.v == atom_val(("in", x, fld)) or is_k(p.v) and p.dec(("in", x, fld)) == kv(p.v)
        c.on_path(key + ".contains", p, contained(p, ok, fld), "membership is not decided by equality with an element", f)
    f = m("__len__")
    for p in c.method("OrderedSet", "__len__"):
        if p.raises: continue
        ok = p.v == T("len", fld) or is_call(p.v, "__len__", fld)
        c.on_path(key + ".len", p, True if ok else False if is_k(p.v) or is_t(p.v, "bin") else None, "the size is not the number of elements", f)
    f = m("__iter__")
    for p in c.method("OrderedSet", "__iter__"):
        if p.raises: continue
        v = p.v
        ok = is_call(v, "__iter__", fld) or (is_t(v, "call") and v[2] == "iter" and v[4] and strip_copy(v[4][0]) in (fld, T("keys", fld)) or is_t(v, "iter") and strip_copy(v[2]) in (fld, T("keys", fld)))
        its = p.seq(v) if not ok else None
        if its is not None and len(its) == 1 and not its[0].facts: ok = its[0].kind == "spread" and not its[0].chain and its[0].val == fld or its[0].kind == "one" and len(its[0].chain) == 1 and covers(p, its[0].chain[0][0], fld) == "all" and its[0].val == el(p.eng, fld, its[0].chain[0][0])
        bad = any(is_t(x) and x[1] in ("sorted", "reversed", "set", "slice") for x in subterms(v))
        c.on_path(key + ".iter", p, True if ok else False if bad else None, "the elements are not visited in the order they came in", f)
