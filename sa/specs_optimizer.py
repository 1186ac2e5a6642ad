"""C03, C04, C06: optimizing the order and the structure of a query."""
from .spec import *
from .specs_composer import every, has, kind_of
from .specs_pipeline import is_call

EMPTY = T("list")

SELF = param("self")
FR, SC, II, BO = "FrontResolveName", "SortByCost", "IsolateIndependentParts", "BasicQueryOptimizer"
RECUR = {"sort_rest", "calculate_cost", "sort_arguments", "get_atom_variables", "find_relations", "sort"}


def seq_of(p, v):
    """items of a list value"""
    return p.seq(v)


def parts(p, v, d=0):
    """segments of a list value: [('one', v) | ('spread', v)] or None"""
    if d > 6: return None
    if is_t(v, "list"):
        out = []
        for g in v[2:]:
            if g[0] == "one": out.append(("one", g[1]))
            elif g[0] == "spread":
                s = parts(p, g[1], d + 1) if is_t(g[1], "list") or is_t(g[1], "bin") else [("spread", g[1])]
                if s is None: return None
                out += s
            else: return None
        return out
    if is_t(v, "bin") and v[2] == "+":
        a, b = parts(p, v[3], d + 1), parts(p, v[4], d + 1)
        return None if a is None or b is None else a + b
    return [("spread", v)]


def permutes(p, v, S, key=None, d=0):
    """list v holds each element of S once: 'sorted' info list, 'same', False (an element is lost or doubled), or None"""
    if v == S: return "same"
    if d > 6: return None
    b, how = strip_seq(v)
    if how == "part": return False
    if b == S: return how if how != "all" else "same"
    if is_t(v, "sorted"): return permutes(p, v[2], S, key, d + 1)
    if is_t(v, "reversed"):
        return permutes(p, v[2], S, key, d + 1)
    if is_t(v, "list"):
        its = p.seq(v)
        if its is None: return None
        live = [i for i in its if i.kind != "skip"]
        if len(live) == 1 and len(live[0].chain) == 1:
            it = live[0]; L = it.chain[0][0]; lp = p.eng.loops[L]
            dom = lp.dom
            while is_t(dom, "enumerate"): dom = dom[2]
            carries = contains(it.val, T("item", dom, idx(L))) if it.kind == "one" else False
            if not carries: return None
            if any(i.kind == "skip" for i in its): return False
            return permutes(p, dom, S, key, d + 1)
        if len(live) > 1: return None
    if is_t(v, "values") and is_t(v[2], "dict"):
        its = p.seq(v[2])
        if its and len(its) == 1 and len(its[0].chain) == 1 and its[0].key is not None:
            it = its[0]; L = it.chain[0][0]; src = p.eng.loops[L].dom
            while is_t(src, "enumerate"): src = src[2]
            if not contains(it.key, T("item", src, idx(L))): return permutes(p, src, S, key, d + 1) if contains(it.key, idx(L)) and contains(it.val, T("item", src, idx(L))) else None
            # equal elements end under one key
            return False if permutes(p, src, S, key, d + 1) else None
    return None


def underlying(p, v, d=0):
    """the element of the sorted sequence an expression over a collected list refers to: resolves item(list[collect over X], k) to terms over X's element"""
    if d > 6: return v
    if is_t(v, "item") and is_t(v[2], "list") and len(v[2]) == 3 and v[2][2][0] in ("acc",):
        its = p.seq(v[2])
        live = [i for i in its or [] if i.kind != "skip"]
        if len(live) == 1 and live[0].kind == "one" and len(live[0].chain) == 1 and len(its) == 1:
            L = live[0].chain[0][0]; dom = p.eng.loops[L].dom
            return underlying(p, resolve(p, subst(live[0].val, {T("item", dom, idx(L)): T("item", dom, v[3])})), d + 1)
    return v


def resolve(p, v):
    """fold dict['a': x]['a'] where the dict is the element of a collected list"""
    return v


def order_of(p, v, d=0):
    """the 'sorted'/extremum term that list v was mapped from, and the field of the element kept: (sorted term, field or None)"""
    if is_t(v, "sorted"): return v, ()
    if is_t(v, "list") and d < 5:
        its = p.seq(v)
        if its and len(its) == 1 and its[0].kind == "one" and len(its[0].chain) == 1:
            L = its[0].chain[0][0]; dom = p.eng.loops[L].dom; it = its[0].val
            if is_t(dom, "sorted"):
                e = T("item", dom, idx(L))
                if it == e: return dom, ()
                if is_t(it, "item") and it[2] == e: return dom, (it[3],)
                if is_t(it, "attr") and it[2] == e: return dom, (it[3],)
    return None


def key_of(p, srt):
    """(what the sort compares of an element of the sorted list, the element) as terms of the list's own source; [(keyval, elem fields)] per alternative"""
    src, key = srt[2], srt[3]
    out = []
    if is_t(src, "list"):
        for it in p.seq(src) or []:
            if it.kind == "skip": continue
            if it.kind != "one" or len(it.chain) != 1: return None
            out.append((it.val, it))
        return out
    return None


@spec("C06", least=15)
def C06(c):
    f = c.prog.method(SC, "sort_rest"); done, todo, model, bound = (param(x) for x in f.params[1:5]); n = 0
    for p in c.method(SC, "sort_rest", opaque=RECUR):
        e_ = p.dec(("truthy", todo))
        if p.raises: c.on_path("C06.sort", p, False if p.v[3] == "explicit" else None, "sorting fails", f); continue
        if e_ is False: continue
        costs = [(e, ch) for e, ch, fa in p.calls("calculate_cost")]
        good = True
        for e, ch in costs:
            a = e.args
            if len(a) < 3: good = None; continue
            ok = any(is_t(a[0], "item") and covers(p, L, todo) == "all" and a[0] == T("item", todo, idx(L)) for L, _ in ch)
            c.on_path("C06.bound", p, True if a[1] == bound else False if is_t(a[1], "set") and len(a[1]) == 2 or a[1] == param("done") or is_k(a[1]) else None, "the cost is not that for the variables bound so far", f)
            if not ok: good = None
        nxt = [e for e, ch, fa in p.calls("sort_rest") if not ch]
        if len(nxt) != 1 or not p.v == nxt[0].result:
            c.on_path("C06.least", p, None, "order not understood", f); continue
        a = nxt[0].args; n += 1
        prt = parts(p, a[0])
        new = [x for x in prt or [] if x != ("spread", done)]
        if prt is None or len(new) != 1 or new[0][0] != "one": c.on_path("C06.least", p, None, "order not understood", f); continue
        ch = new[0][1]; arg = ch
        if is_call(ch, "sort_arguments"): arg = ch[4][0]
        ok = least(c, p, arg, todo, bound, model)
        c.on_path("C06.least", p, ok, "the atom that is placed next is not the one with the least cost", f)
        # what it binds counts for the rest
        b = a[3] if len(a) > 3 else None
        if b is None: c.on_path("C06.binds", p, None, "", f)
        else:
            keeps = contains(b, bound) and (b == bound or is_t(b, "set") or is_t(b, "bin") and b[2] == "|" or is_call(b, "union"))
            vs = [x for x in subterms(b) if is_call(x, "get_atom_variables") or is_call(x, "get_atoms_variables")]
            adds = any(any(y in (ch, arg) or isinstance(y, tuple) and contains(y, arg) for y in x[4]) for x in vs)
            c.on_path("C06.binds", p, True if keeps and adds else False if b == bound or not contains(b, bound) and (is_t(b, "set") or b in vs) else False if not vs and is_t(b, "set") else None, "the variables that an atom binds do not count for the atoms after it", f)
        c.on_path("C06.model", p, True if len(a) > 2 and a[2] == model else None, "", f)
    c.ob("C06.found", True if n else None, c.where(f), "atoms are sorted by cost")
    cost(c)
    from .specs_rules import collects_variables
    collects_variables(c, "C06", "get_atoms_variables", "get_atom_variables")


def least(c, p, arg, todo, bound, model):
    """arg is the element of todo with the least cost, the first of these"""
    srt = None; fld = ()
    if is_t(arg, "item") and is_k(arg[3]) and type(kv(arg[3])) is int:
        lst, k = arg[2], kv(arg[3]); rest = ()
        o = order_of(p, lst)
        if o is None and is_t(lst, "item"): # first element's field: sorted(..)[0]['atom']
            pass
        if o is None: return None if lst != todo else False
        srt, fld = o
        if k != 0 and not (k == -1 and srt[4] == K(True)): return False
        if k == -1: return False if srt[4] == K(True) else False
    elif is_t(arg, "item") and is_t(arg[2], "item") and is_t(arg[2][2], "sorted"):
        srt = arg[2][2]; fld = (arg[3],)
        if arg[2][3] != K(0): return False if is_k(arg[2][3]) else None
    elif is_t(arg, "extremum"):
        if arg[2] not in ("min", K("min")): return False if arg[2] in ("max", K("max")) else None
        return keyed(c, p, arg[3], arg[4], (), todo, bound, model)
    elif is_t(arg, "item") and is_t(arg[2], "extremum"):
        x = arg[2]
        if x[2] not in ("min", K("min")): return False if x[2] in ("max", K("max")) else None
        return keyed(c, p, x[3], x[4], (arg[3],), todo, bound, model)
    if srt is None: return None
    if srt[4] not in (False, K(False), NONE): return False if srt[4] in (True, K(True)) else None
    return keyed(c, p, srt[2], srt[3], fld, todo, bound, model)


def keyed(c, p, src, key, fld, todo, bound, model):
    E = [x for x in subterms(key) if isinstance(x, tuple) and x in (("elem",), T("elem"), ("t", "elem"))] if key not in (None, NONE) else []
    costcall = lambda v: is_call(v, "calculate_cost")
    if src == todo:
        return True if key and costcall(key) else None
    its = p.seq(src)
    if its is None or len(its) != 1 or its[0].kind != "one" or len(its[0].chain) != 1: return None
    v = its[0].val; L = its[0].chain[0][0]; at = T("item", todo, idx(L))
    if covers(p, L, todo) == "part": return False
    if covers(p, L, todo) is None: return None
    # the field used as a key holds the cost of the atom in the field that is kept
    def get(d, k):
        if is_t(d, "dict"):
            for g in d[2:]:
                if g[0] == "put" and g[1] == k: return g[2]
        if d[0] == "tup" and is_k(k) and type(kv(k)) is int and 0 <= kv(k) < len(d) - 1: return d[1 + kv(k)]
        return None
    kf = None
    if isinstance(key, tuple) and is_t(key, "item"): kf = get(v, key[3])
    if kf is None: return None
    av = get(v, fld[0]) if fld else v
    if av is None: return None
    if not costcall(kf): return False if is_k(kf) or kf == at else None
    return av == at and kf[4][:1] == (at,)


def cost(c):
    f = c.prog.method(SC, "calculate_cost"); atom, bound, model = (param(x) for x in f.params[1:4]); n = 0
    inf = kv_const(c, "INFINITE"); ign = kv_const(c, "IGNORED")
    unknown = fit = False
    for p in c.method(SC, "calculate_cost", opaque={"find_relations"}):
        rc = [e for e, ch, fa in p.calls("find_relations")]
        if not rc: c.on_path("C06.relations", p, None, "", f); continue
        R = rc[0].result
        c.on_path("C06.relations", p, rc[0].args[:1] == (T("item", atom, K(0)),), "the cost is not that of the atom's own relation", f)
        none = p.dec(("truthy", R)) is False
        if p.raises:
            if p.v[3] != "explicit": continue
            fit = True
            ln = [a for a in p.facts if a[0] in ("eq", "lt") and any(is_t(x, "len") and contains(x, atom) for x in a[1:])]
            c.on_path("C06.misfit", p, True if ln else None, "an error that is not about the number of sizes", f)
            continue
        n += 1
        if not none and cut_short(c, "C06.each", p, R, f, "not every relation counts for the cost"): continue
        if none:
            unknown = True
            c.on_path("C06.unknown", p, True if p.v == K(0) else False if is_k(p.v) and isinstance(kv(p.v), (int, float)) and kv(p.v) > 0 or p.v == NONE else None, "a predicate without relation is not the cheapest", f)
            continue
        v = p.v
        if is_k(v) or v == EMPTY: c.on_path("C06.largest", p, False, "the cost of a known relation is a fixed number", f); continue
        if is_t(v, "extremum"):
            nm = v[2] if isinstance(v[2], str) else kv(v[2])
            c.on_path("C06.largest", p, nm == "max", "with several relations the largest cost does not count", f)
            its = p.seq(v[3]) or []
            if its and all(i.kind == "one" and is_k(i.val) for i in its) and not p.imprecise: c.on_path("C06.cost", p, False, "no cost is computed from the size of a relation", f)
            for it in its: one_cost(c, p, it, R, atom, bound, inf, ign, f)
        elif is_call(v, "sum") or is_t(v, "sum"): c.on_path("C06.largest", p, False, "with several relations the largest cost does not count", f)
        elif is_t(v, "item") and is_t(v[2], "sorted") or is_t(v, "phi") or is_t(v, "item"):
            b, how = strip_seq(v[2]) if is_t(v, "item") else (None, None)
            c.on_path("C06.largest", p, False if b is not None and is_t(b, "list") and v[3] in (K(0), K(-1)) and how == "all" else None, "with several relations the largest cost does not count", f)
        else: c.on_path("C06.largest", p, None, "", f)
    c.ob("C06.cost-found", True if n >= 2 and unknown and fit else False if n and not fit and all_seen(c) else None, c.where(f), "the cost of an atom: a list of sizes that does not fit the atom must be refused")


def all_seen(c):
    return not any(p.imprecise for p in c.method(SC, "calculate_cost", opaque={"find_relations"}))


def kv_const(c, name):
    for m in c.prog.modules.values():
        if m.name.endswith("core.constants"):
            for x in m.tree.body:
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name:
                    try: return ast.literal_eval(x.value)
                    except Exception: return None
    return None


def one_cost(c, p, it, R, atom, bound, inf, ign, f):
    if it.kind == "skip" or it.kind != "one" or len(it.chain) != 1: c.on_path("C06.cost", p, False if it.kind == "skip" else None, "a relation does not count for the cost", f); return
    L = it.chain[0][0]; r = T("item", R, idx(L)); size = attr(r, "relation_size"); sizes = attr(r, "argument_sizes"); v = it.val
    c.on_path("C06.each", p, {"all": True, "part": False}.get(covers(p, L, R)), "not every relation counts for the cost", f)
    known = [t for a, t in it.facts.items() if a[0] == "eq" and size in a[1:]]
    if is_k(v):
        big = isinstance(kv(v), (int, float)) and inf is not None and kv(v) >= inf
        c.on_path("C06.infinite", p, True if known and known[0] and big else False, "a relation without known size is not the most expensive", f); return
    if known and known[0]: c.on_path("C06.infinite", p, False, "a relation without known size is not the most expensive", f)
    elif not known: c.on_path("C06.infinite", p, False if contains(v, size) else None, "a relation without known size is not the most expensive", f)
    if is_t(v, "bin") and v[2] in ("/", "//") and v[3] == size and is_t(v[4], "phi"):
        if v[2] == "//": c.on_path("C06.cost", p, False, "costs between two numbers of tuples are not told apart", f)
        product(c, p, v[4], R, r, atom, bound, it, f)
    elif v == size: c.on_path("C06.cost", p, False, "the cost does not depend on what is bound", f)
    else: c.on_path("C06.cost", p, None if not (is_t(v, "bin") and v[2] in "+-*%") else False, "the cost is not the size of the relation divided by that of the bound arguments", f)
    # sizes that do not fit are refused before
    ok = any(a[0] == "eq" and t and any(x == T("len", sizes) for x in a[1:]) for a, t in it.facts.items())
    c.on_path("C06.misfit", p, True if ok else None if p.imprecise else False, "a list of sizes that does not fit the atom is used", f)


def product(c, p, ph, R, r, atom, bound, it, f):
    lp = p.eng.loops[ph[2]]; name = ph[3]; sizes = attr(r, "argument_sizes")
    init = lp.phi_init.get(name); args = T("slice", atom, K(1), NONE, NONE)
    if is_t(lp.dom, "slice") or is_t(lp.dom, "list") and len(lp.dom) == 3 and is_t(lp.dom[2][1], "slice"): c.on_path("C06.cost", p, False, "not all arguments count", f); return
    doms = lp.dom[2:] if is_t(lp.dom, "zip") else ()
    for d in doms:
        b, how = (d, "all") if d == args else strip_seq(d)
        if is_t(d, "slice") and d[2] == args: b, how = args, "part"
        if how == "part" and b in (args, sizes) or is_t(b, "slice") and b[2] == atom and b != args or b == atom: c.on_path("C06.cost", p, False, "arguments and their sizes are not paired, or not all of them", f); return
        if b in (args, sizes) and how != "all" and not all(strip_seq(x)[1] == how for x in doms): c.on_path("C06.cost", p, False, "arguments and their sizes are not paired", f); return
    if doms and not any(strip_seq(d)[0] == sizes for d in doms): c.on_path("C06.cost", p, None, "", f); return
    c.on_path("C06.start", p, True if init == K(1) else False if is_k(init) else None, "the product of sizes does not start with 1", f)
    for a in lp.alts:
        nx = a.next.get(name, ph)
        i = idx(ph[2]); s = T("item", sizes, i); arg = p.eng.item_term(State(), T("slice", atom, K(1), NONE, NONE), i)
        facts = a.facts
        igs = [t for x, t in facts.items() if x[0] == "eq" and s in x[1:]]; ig = any(igs)
        var = next((t for x, t in facts.items() if x[0] == "isinst" and x[1] == arg and x[2].endswith("Variable")), None)
        bd = next((t for x, t in facts.items() if x[0] == "in" and x[1] == attr(arg, "name") and x[2] == bound), None)
        comp = any(t and x[0] == "isinst" and x[1] == arg and x[2] in ("list", "tuple") for x, t in facts.items())
        simple = all(("isinst", arg, k) in facts for k in ("list", "tuple"))
        mult = is_t(nx, "bin") and nx[2] == "*" and {nx[3], nx[4]} == {ph, s}
        if nx == ph: got = False
        elif mult: got = True
        else: c.on_path("C06.cost", p, False if is_t(nx, "bin") and nx[2] in ("+", "-", "/", "//", "%", "**") or is_k(nx) or nx == s or is_t(nx, "extremum") else None, "the cost is not divided by the product of the sizes of the bound arguments", f); continue
        if ig: want = False
        elif var and bd is not None: want = bd
        elif comp: want = False
        elif var is False and simple: want = True
        else: want = None
        about = [x for x in facts if contains(x, arg)]
        if not igs and got: ok = False if not any(contains(x, s) for x in facts) else None
        elif want is not None: ok = want == got
        elif var and bd is None: ok = None if any(contains(x, attr(arg, "name")) for x in facts) else False
        elif got and var is None and bd is None: ok = False
        elif var is False and got: ok = False if not simple else None
        else: ok = None if about or not got else False
        c.on_path("C06.cost", p, ok, "what counts as a bound argument is not a constant or a variable bound before" , f)


# ---------------------------------------------------------------- C03
@spec("C03", least=20)
def C03(c):
    chain(c, "C03"); by_cost(c); resolvers(c); isolate(c, "C03"); batches(c, "C03"); restore(c)


def by_cost(c):
    f = c.prog.method(SC, "sort_rest"); done, todo, model, bound = (param(x) for x in f.params[1:5]); n = 0
    for p in c.method(SC, "sort_rest", opaque=RECUR):
        if p.raises: c.on_path("C03.sort", p, False if p.v[3] == "explicit" else None, "sorting fails", f); continue
        if p.dec(("truthy", todo)) is False:
            v = parts(p, p.v)
            c.on_path("C03.sort-end", p, p.v == done or v == [("spread", done)] if v is not None else None, "the atoms sorted so far are not what is returned", f); n += 1; continue
        nxt = [e for e, ch, fa in p.calls("sort_rest") if not ch]
        if len(nxt) != 1 or p.v != nxt[0].result:
            v = parts(p, p.v); c.on_path("C03.sort", p, None if v is None or p.imprecise else None, "sorting not understood", f); continue
        a = nxt[0].args; prt = parts(p, a[0]); n += 1
        if prt is None or not prt: c.on_path("C03.sort", p, None, "sorting not understood", f); continue
        new = [x[1] for x in prt[1:]]
        if prt[0] != ("spread", done): c.on_path("C03.sort-done", p, False if ("spread", done) in prt or all(x[0] == "one" for x in prt) else None, "the atoms sorted so far do not come first", f); continue
        c.on_path("C03.sort-done", p, True if len(new) == 1 else False if not new else None, "the atoms sorted so far come first", f)
        if len(new) != 1 or prt[1][0] != "one": continue
        ch = new[0][4][0] if is_call(new[0], "sort_arguments") else new[0]
        rest = a[1]
        if is_t(ch, "item") and is_k(ch[3]) and is_t(rest, "slice") and rest[2] == ch[2]:
            k = kv(ch[3]); lo, hi = rest[3], rest[4]
            ok = (k == 0 and lo == K(1) and hi == NONE or k == -1 and lo in (NONE, K(0)) and hi == K(-1)) and rest[5] in (NONE, K(1))
            c.on_path("C03.sort-rest", p, ok, "an atom is lost or doubled when the cheapest is taken from the rest", f)
            whole = permutes(p, ch[2], todo)
            c.on_path("C03.sort-all", p, None if whole is None else bool(whole), "the sorted atoms are not those that were to be sorted", f)
            o = order_of(p, ch[2])
            c.on_path("C03.sort-stable", p, True if o and k == 0 and o[0][4] in (False, K(False), NONE) and not ties(o[0]) else None if o is None else False, "the order among atoms of the same cost is not kept", f)
        elif rest == todo: c.on_path("C03.sort-rest", p, False, "the atom that was placed stays in the rest", f)
        elif is_t(rest, "slice") and (is_t(ch, "item") or is_t(ch, "extremum")): c.on_path("C03.sort-rest", p, False if is_t(ch, "item") and rest[2] != ch[2] and permutes(p, rest[2], todo) and permutes(p, ch[2], todo) and rest[2] != ch[2] else None, "what is placed is not what is taken from the rest", f)
        else: c.on_path("C03.sort-rest", p, None, "", f)
    c.ob("C03.sort-found", True if n >= 2 else None, c.where(f), "sorting by cost analysed")
    f = c.prog.method(SC, "sort"); comp = param(f.params[1]); n = 0
    for p in c.method(SC, "sort", opaque=RECUR - {"sort"}):
        if p.raises: continue
        n += 1
        e_ = p.dec(("truthy", comp))
        v = p.v
        if is_call(v, "sort_rest"):
            a = v[4]; c.on_path("C03.sort-start", p, a[0] == EMPTY and a[1] == comp if len(a) > 1 else None, "sorting does not start with all atoms", f)
        elif e_ is False: c.on_path("C03.sort-start", p, v in (EMPTY, comp), "the empty list is not kept", f)
        else: c.on_path("C03.sort-start", p, False if v == EMPTY else None, "sorting not understood", f)
    f = c.prog.method(SC, "sort_arguments"); at = param(f.params[1]); n = 0
    for p in c.method(SC, "sort_arguments", opaque=RECUR - {"sort_arguments"}):
        if p.raises: continue
        n += 1; v = p.v
        if v == at: c.on_path("C03.arguments", p, True, "", f); continue
        if v == NONE: c.on_path("C03.arguments", p, False, "an atom is lost", f); continue
        if is_t(v, "tupof"): v = v[2]
        elif v[0] != "tup": 
            b, how = strip_seq(v)
            c.on_path("C03.arguments-tuple", p, False if is_t(v, "list") else None, "an atom becomes a list", f)
        its = p.seq(v)
        if its is None: c.on_path("C03.arguments", p, None, "", f); continue
        base = False
        for it in its:
            if it.kind == "skip":
                if base is False and len(it.chain) == 1 and any(i.kind == "one" and i.chain and i.chain[0][0] == it.chain[0][0] for i in its): c.on_path("C03.arguments", p, False, "an argument of an atom is lost", f)
                continue
            if it.kind == "spread" and it.val == at and not it.chain: base = True; continue
            if it.kind in ("setat", "put", "update", "one") and len(it.chain) == 1:
                L = it.chain[0][0]; x = T("item", at, idx(L))
                srt = is_call(it.val, "sort") and it.val[4][:1] == (x,)
                pos = it.key == idx(L) if it.kind in ("setat", "put") else True
                c.on_path("C03.arguments", p, True if (srt or it.val == x) and pos else False if it.kind == "setat" and (is_k(it.key) or not pos) or it.val in (EMPTY,) or is_call(it.val, "sort") and is_t(it.val[4][0], "item") and not srt else None, "the nested atoms of an argument are not put back in their own place", f)
                if it.kind == "one" and covers(p, L, at) == "part": c.on_path("C03.arguments", p, False, "an argument of an atom is lost", f)
                continue
            c.on_path("C03.arguments", p, None, "arguments not understood", f)
    c.ob("C03.arguments-found", True if n else None, c.where(f), "sorting inside arguments analysed")


def ties(srt):
    """the key also compares something else than the cost"""
    k = srt[3]
    return isinstance(k, tuple) and k and k[0] == "tup"


def resolvers(c):
    f = c.prog.method(FR, "sort"); comp = param(f.params[1]); n = 0
    for p in c.method(FR, "sort", opaque={"extract_list", "extract_tuple"}):
        if p.raises: continue
        n += 1; v = p.v; ex = [e for e, ch, fa in p.calls("extract_list")]
        if len(ex) != 1 or ex[0].args[:1] != (comp,): c.on_path("C03.front", p, None, "", f); continue
        r = ex[0].result; prt = parts(p, v)
        a, b = ("spread", T("item", r, K(0))), ("spread", T("item", r, K(1)))
        c.on_path("C03.front", p, None if prt is None else prt == [a, b] if prt and all(x in (a, b) for x in prt) else None, "name resolutions do not come first, or atoms are lost", f)
    c.ob("C03.front-found", True if n else None, c.where(f), "moving name resolution to the front analysed")
    for nm, whole in (("extract_list", False), ("extract_tuple", True)):
        f = c.prog.method(FR, nm); comp = param(f.params[1]); n = 0
        for p in c.method(FR, nm, opaque={"extract_list", "extract_tuple"}):
            if p.raises: c.on_path("C03.extract", p, False if p.v[3] == "explicit" else None, "an atom is refused", f); continue
            if p.v[0] != "tup" or len(p.v) != 3: c.on_path("C03.extract", p, False if is_k(p.v) else None, "nothing is returned", f); continue
            front, rest = p.v[1:]; n += 1
            if whole:
                c.on_path("C03.extract-shape", p, True if is_t(rest, "tupof") or rest[0] == "tup" or rest == comp else False if is_t(rest, "list") else None, "an atom does not stay a tuple", f)
                if is_t(rest, "tupof"): rest = rest[2]
            fi, ri = p.seq(front), p.seq(rest)
            if fi is None or ri is None: c.on_path("C03.extract", p, None, "", f); continue
            if cut_short(c, "C03.extract-all", p, comp, f, "not every atom is kept"): continue
            Ls = {i.chain[0][0] for i in fi + ri if i.chain}
            main = [L for L in Ls if covers(p, L, comp)]
            if len(main) != 1: c.on_path("C03.extract", p, None if not (Ls and not main) else None, "", f); continue
            L = main[0]
            c.on_path("C03.extract-all", p, covers(p, L, comp) == "all", "not every atom is kept, or their order is changed", f)
            x = T("item", comp, idx(L))
            lp = p.eng.loops[L]
            # a copy of the structure in which parts are replaced
            based = [i for i in ri if i.kind == "spread" and i.val == comp and not i.chain]
            if based and (len(based) > 1 or any(i not in based and i.kind not in ("setat", "skip") or i.kind == "setat" and i.key != idx(L) for i in ri)):
                c.on_path("C03.extract", p, False if any(i.kind == "setat" and is_k(i.key) for i in ri) else None, "a part is put in another place", f); continue
            for k, a in enumerate(lp.alts):
                F = [i for i in fi if i.chain and i.chain[0] == (L, k) and i.kind != "skip"]; Rr = [i for i in ri if i.chain and i.chain[0] == (L, k) and i.kind != "skip"]
                islist = next((t for q, t in a.facts.items() if q == ("isinst", x, "list")), None)
                istup = next((t for q, t in a.facts.items() if q == ("isinst", x, "tuple")), None)
                name = next((t for q, t in a.facts.items() if q[0] == "eq" and T("item", x, K(0)) in q[1:] and K("resolve_name") in q[1:]), None)
                sub = [i.val for i in F if i.kind == "spread" and is_t(i.val, "item")]
                fv = [i.val for i in F]; rv = [i.val for i in Rr]
                if based and not Rr: rv = [x]
                call = next((v[2] for v in fv + rv if is_t(v, "item") and (is_call(v[2], "extract_list") or is_call(v[2], "extract_tuple")) and v[2][4][:1] == (x,)), None)
                if not F and not rv: c.on_path("C03.extract", p, False, "an atom is lost", f); continue
                if call is not None:
                    ok = fv == [T("item", call, K(0))] and rv == [T("item", call, K(1))] and F[0].kind == "spread" and (Rr[0].kind == "setat" if based else Rr[0].kind == "one")
                    c.on_path("C03.extract", p, ok, "the parts of a nested structure are not all kept in their own place", f)
                    if is_call(call, "extract_list"): c.on_path("C03.extract-kind", p, True if islist else False if istup else None, "a tuple is taken apart as a list", f)
                    if is_call(call, "extract_tuple"): c.on_path("C03.extract-kind", p, True if istup or islist is False and istup is None else False if islist else None, "a list is taken apart as a tuple", f)
                    continue
                if fv == [x] and not rv: c.on_path("C03.extract", p, True if name else False if not name and istup is not None or name is False else None, "an atom other than a name resolution is moved", f); continue
                if rv == [x] and not fv:
                    c.on_path("C03.extract", p, False if name else True, "a name resolution is not moved", f); continue
                if fv == [x] and rv == [x]: c.on_path("C03.extract", p, False, "an atom is doubled", f); continue
                c.on_path("C03.extract", p, None, "", f)
        c.ob("C03.extract-found", True if n else None, c.where(f), nm + " analysed")


def chain(c, pid):
    f = c.prog.method(BO, "optimize"); sem, roots = (param(x) for x in f.params[1:3]); n = 0
    model = attr(SELF, "model")
    for p in c.method(BO, "optimize", opaque=RECUR | {"extract_list", "isolate", "collect_batches"}):
        if p.raises: c.on_path(pid + ".steps", p, False if p.v[3] == "explicit" else None, "optimizing fails", f); continue
        its = p.seq(p.v)
        if its is None: c.on_path(pid + ".steps", p, None, "", f); continue
        puts = [i for i in its if i.kind == "put"]
        if not puts: c.on_path(pid + ".steps", p, None, "", f); continue
        n += 1; last = puts[-1].val
        if pid == "C03":
            c.on_path("C03.steps", p, True if contains(last, sem) or empty_input(p, last) else False if not p.imprecise else None, "the final query is not made from the sentence's atoms", f)
            for k in puts[:-1]:
                pass
            for i, k in enumerate(puts):
                if contains(last, k.val) or k.val == last or is_t(k.val, "list") and len(k.val) == 2: continue
                c.on_path("C03.chain", p, False if k.val != sem and not contains(last, k.val) else None, "a step does not continue with the result of the step before it", f)
            c.on_path("C03.chain", p, True, "", f)
        else:
            for e, ch, fa in p.calls("isolate"):
                if len(e.args) > 1: c.on_path("C04.given-roots", p, True if e.args[1] == roots else False, "isolation is not given the sentence's root variables", f)
            for e, ch, fa in p.calls("sort_rest"):
                if len(e.args) > 2: c.on_path("C04.given-model", p, True if e.args[2] == model else False if is_k(e.args[2]) else None, "sorting is not given the model", f)
    c.ob(pid + ".steps-found", True if n else None, c.where(f), "the steps of the optimizer analysed")


def cut_short(c, pid, p, S, f, what, loops=None):
    """a loop over S ends before its end"""
    for L in loops or p.st.loops:
        w = covers(p, L, S, loops)
        if w == "part": c.on_path(pid, p, False, what, f); return True
    return False


def empty_input(p, last):
    """nothing was left to sort on this path"""
    return any(a[0] == "truthy" and t is False for a, t in p.facts.items())


def isolate(c, pid):
    f = c.prog.method(II, "isolate"); atoms, roots = (param(x) for x in f.params[1:3]); n = 0
    for p in c.method(II, "isolate", opaque={"isolate", "collect_batches", "get_atom_variables", "get_atoms_variables"}):
        if p.raises: c.on_path(pid + ".isolate", p, False if p.v[3] == "explicit" else None, "isolating fails", f); continue
        if p.dec(("truthy", atoms)) is False:
            if pid == "C03": c.on_path("C03.isolate-empty", p, p.v in (EMPTY, atoms), "the empty query is not kept", f)
            continue
        its = p.seq(p.v); cb = [e for e, ch, fa in p.calls("collect_batches") if not ch]
        if its is None or len(cb) != 1:
            c.on_path(pid + ".isolate", p, True if p.v == atoms else None, "", f); continue
        n += 1; B = cb[0].result; live = [i for i in its if i.kind != "skip"]
        a0 = T("item", atoms, K(0))
        if pid == "C04":
            ex = cb[0].args[1] if len(cb[0].args) > 1 else None
            vs = [x for x in subterms(ex) if is_call(x, "get_atom_variables") or is_call(x, "get_atoms_variables")] if ex else []
            if ex is not None and any(is_t(y, "slice") and any(contains(y, z) for z in vs) for y in subterms(ex)): c.on_path("C04.first", p, False, "only some of the variables of the first atom are taken as fixed", f)
            c.on_path("C04.first", p, True if vs and all(x[4][0] == a0 for x in vs) else False if vs and any(x[4][0] == atoms for x in vs) else None, "the variables taken as fixed are not those of the first atom", f)
        if pid == "C03":
            S = cb[0].args[0]
            okr = is_t(S, "slice") and S[2:] == (atoms, K(1), NONE, NONE)
            head = bool(live) and live[0].kind == "one" and not live[0].chain and live[0].val == a0
            if S == atoms: c.on_path("C03.isolate-rest", p, False if head else None, "the first atom occurs twice", f)
            else: c.on_path("C03.isolate-rest", p, okr if okr or is_t(S, "slice") else None, "the atoms after the first one are not all kept", f)
            c.on_path("C03.isolate-first", p, head if head or not any(i.val == a0 for i in live) and not p.imprecise else None, "the first atom is lost or does not come first", f)
        rest = live[1:]
        if pid == "C03" and cut_short(c, "C03.isolate-all", p, B, f, "not every batch of atoms is kept"): continue
        Ls = {i.chain[0][0] for i in its if i.chain}
        for L in Ls:
            if covers(p, L, B) is None: c.on_path(pid + ".isolate", p, None, "", f); continue
            if pid == "C03": c.on_path("C03.isolate-all", p, covers(p, L, B) == "all", "not every batch of atoms is kept, or their order changes", f)
            b = T("item", B, idx(L)); at = attr(b, "atoms"); va = attr(b, "variables")
            for k, alt in enumerate(p.eng.loops[L].alts):
                its_k = [i for i in live if i.chain and i.chain[0] == (L, k)]
                if not its_k:
                    if pid == "C03": c.on_path("C03.isolate-keep", p, False, "a batch of atoms is lost", f)
                    continue
                if len(its_k) != 1: c.on_path(pid + ".isolate", p, None if pid == "C04" else False, "a batch of atoms is doubled", f); continue
                i = its_k[0]
                if i.kind == "spread":
                    if pid == "C03": c.on_path("C03.isolate-keep", p, True if i.val == at else None if contains(i.val, at) and not is_t(i.val, "slice") else False, "the atoms of a batch are not all kept", f)
                    continue
                if i.kind == "one" and len(i.chain) > 1 and i.val == T("item", at, idx(i.chain[1][0])):
                    if pid == "C03": c.on_path("C03.isolate-keep", p, True if covers(p, i.chain[1][0], at) == "all" else False, "the atoms of a batch are not all kept", f)
                    continue
                if i.kind == "one" and i.val[0] == "tup" and i.val[1] == K("scoped") and len(i.val) == 3:
                    body = i.val[2]
                    if is_call(body, "isolate") and body[4]:
                        if pid == "C03": c.on_path("C03.isolate-keep", p, True if body[4][0] == at else False if contains(body[4][0], at) and is_t(body[4][0], "slice") else None, "the atoms of a batch are not all kept", f)
                    elif body == at:
                        if pid == "C03": c.on_path("C03.isolate-keep", p, True, "", f)
                    elif pid == "C03": c.on_path("C03.isolate-keep", p, False if not contains(body, at) else None, "the atoms of a batch are not all kept", f)
                    if pid == "C04":
                        ok = None
                        for q, t in i.facts.items():
                            if q[0] == "truthy" and meets(q[1], va, roots): ok = not t
                            b_ = fewer_than(q, t)
                            if b_ and meets(b_[0], va, roots) and b_[1] is not None and b_[1] > 1: ok = False
                            if q[0] == "truthy" and is_call(q[1], "isdisjoint") and contains(q[1], va) and contains(q[1], roots): ok = t
                            # one set within the other is not the same as having no element in common
                            whole = [y[2][1] if is_t(y, "set", "oset") and len(y) == 3 and isinstance(y[2], tuple) and y[2][0] == "spread" else y for y in q[1:]] if q[0] == "lt" else []
                            if set(map(repr, whole)) == {repr(va), repr(roots)}: ok = False
                            if q[0] == "truthy" and (is_call(q[1], "issubset") or is_call(q[1], "issuperset")) and contains(q[1], va) and contains(q[1], roots): ok = False
                        for L2, (how, al) in (i.loops or {}).items():
                            lp2 = p.eng.loops[L2]; dom2 = strip_seq(lp2.dom)[0]
                            if dom2 not in (va, roots): continue
                            x2, other = T("item", dom2, idx(L2)), roots if dom2 == va else va
                            alts2 = [a for k2, a in enumerate(lp2.alts) if al is None or k2 in al]
                            if how == "all" and all(a.facts.get(("in", x2, other)) is False for a in alts2): ok = True
                        if ok is None and not any(contains(q, roots) for q in i.facts) and not any(contains(p.eng.loops[L2].dom, roots) or contains(p.eng.loops[L2].dom, va) for L2 in (i.loops or {})): ok = False
                        if ok is None and any(is_t(x, "slice") and contains(x[2], roots) or is_t(x, "item") and x[2] == roots and is_k(x[3]) for q in i.facts for x in subterms(q)): ok = False
                        c.on_path("C04.root", p, ok, "atoms that use a root variable are put in a scope", f)
                    continue
                c.on_path(pid + ".isolate", p, None if pid == "C04" else None, "", f)
    c.ob(pid + ".isolate-found", True if n else None, c.where(f), "isolation analysed")


def meets(v, a, b):
    """v is the intersection of sets a and b"""
    def is_(x, y): return x == y or is_t(x, "set") and len(x) == 3 and x[2] == ("spread", y)
    return is_t(v, "bin") and v[2] == "&" and (is_(v[3], a) and is_(v[4], b) or is_(v[4], a) and is_(v[3], b))


def fieldof(v, name):
    x = new_field(v, name) if is_t(v, "new") else None
    return x if x is not None else attr(v, name)


def batches(c, pid):
    f = c.prog.method(II, "collect_batches"); atoms, excl = (param(x) for x in f.params[1:3]); n = 0
    for p in c.method(II, "collect_batches", opaque={"get_atom_variables", "get_atoms_variables", "restore_atom_order"}):
        if p.raises: c.on_path(pid + ".batches", p, False if p.v[3] == "explicit" else None, "collecting fails", f); continue
        v = p.v; n += 1
        its = p.seq(v)
        if its is None: c.on_path(pid + ".batches", p, None, "", f); continue
        live = [i for i in its if i.kind != "skip"]
        src = None
        if len(live) == 1 and live[0].kind == "one" and len(live[0].chain) == 1:
            L = live[0].chain[0][0]; dom = strip_seq(p.eng.loops[L].dom)
            x = T("item", dom[0], idx(L)); val = live[0].val
            inner = val
            if is_call(val, "restore_atom_order"):
                inner = val[4][1] if len(val[4]) > 1 else None
                if pid == "C03": c.on_path("C03.batch-order", p, True if val[4][0] == atoms else None, "", f)
            if dom[0] == atoms and inner is not None and is_t(inner, "new"):
                if pid == "C04": c.on_path("C04.merge-shared", p, None if p.imprecise else False, "atoms that share a variable are never put in the same batch", f); continue
                pr = parts(p, fieldof(inner, "atoms")); c.on_path("C03.batch-keep", p, True if pr == [("one", x)] else None, "", f); continue
            if inner == x or inner is not None and contains(inner, x):
                src = dom[0]
                if pid == "C03": c.on_path("C03.batch-all", p, len(its) == len(live) and dom[1] == "all" and p.st.loops.get(L, ("all",))[0] == "all", "not every batch is kept", f)
        elif len(live) == 1 and live[0].kind == "spread": src = live[0].val
        elif not live: 
            if pid == "C03": c.on_path("C03.batch-all", p, False if p.dec(("truthy", atoms)) is not False else True, "the atoms are lost", f)
            continue
        if src is None: c.on_path(pid + ".batches", p, None, "", f); continue
        seen = set(); todo_ = [src]
        while todo_:
            s = todo_.pop()
            if s in seen or len(seen) > 8: continue
            seen.add(s)
            if is_t(s, "phi"):
                lp = p.eng.loops[s[2]]
                todo_.append(lp.phi_init.get(s[3]))
                for a in lp.alts: todo_.append(a.next.get(s[3], s))
                if pid == "C04": stable(c, p, lp, s, f)
                continue
            if s is None: c.on_path(pid + ".batches", p, None, "", f); continue
            group(c, p, pid, s, atoms, excl, f)
        if pid == "C04" and not any(is_t(s, "phi") or is_t(s, "list") and any(x[0] == "acc" and is_t(strip_seq(p.eng.loops[x[1]].dom)[0], "phi") for x in s[2:]) for s in seen):
            # every atom is put in the first batch it shares a variable with: two batches that an atom connects are only joined in a next round
            merging = [s for s in seen if is_t(s, "list") and len(s) == 3 and s[2][0] == "acc" and any(any(e[0] == "setat" for e in a.emits.get(s[2][2], ())) for a in p.eng.loops[s[2][1]].alts)]
            first_only = merging and all(all(len([e for e in a.emits.get(s[2][2], ()) if e[0] == "setat"]) <= 1 and not any(m_ == "all" for L2, (m_, al) in (a.loops or {}).items() if any(e[0] == "setat" for e in a.emits.get(s[2][2], ()))  and strip_seq(p.eng.loops[L2].dom)[0] == s) for a in p.eng.loops[s[2][1]].alts) for s in merging)
            if first_only: c.on_path("C04.merge-stable", p, False, "merging stops after one round: batches that share a variable are left apart", f)
    c.ob(pid + ".batches-found", True if n else None, c.where(f), "the batches of atoms analysed")


def group(c, p, pid, s, atoms, excl, f):
    """one list of batches: made from the atoms, or from another list of batches"""
    if not is_t(s, "list") or len(s) != 3 or s[2][0] != "acc": c.on_path(pid + ".batches", p, None, "", f); return
    L, obj = s[2][1], s[2][2]; lp = p.eng.loops[L]; dom, how = strip_seq(lp.dom)
    x = T("item", dom, idx(L)); first = dom == atoms
    if pid == "C03": c.on_path("C03.batch-every", p, True if how in ("all", "reversed") else False if how == "part" else None, "atoms are lost when they are grouped", f)
    own = ("atoms",)
    for k, a in enumerate(lp.alts):
        em = a.emits.get(obj, ())
        if not em:
            if pid == "C03": c.on_path("C03.batch-keep", p, False, "an atom is lost when atoms are grouped", f)
            continue
        if len(em) > 1:
            if pid == "C03": c.on_path("C03.batch-keep", p, False if all(e[0] == "one" for e in em) else None, "an atom is doubled when atoms are grouped", f)
            continue
        e = em[0]
        if e[0] == "one":
            b = e[1]
            if b == x and not first:
                if pid == "C03": c.on_path("C03.batch-keep", p, True, "", f)
                if pid == "C04": apart(c, p, a, s, x, excl, first, f, lp)
                continue
            if is_t(b, "new"):
                at, va = fieldof(b, "atoms"), fieldof(b, "variables")
                if first:
                    pr = parts(p, at)
                    if pid == "C03": c.on_path("C03.batch-keep", p, True if pr == [("one", x)] else False if pr is not None and all(q[0] == "one" for q in pr) else None, "a batch does not hold its own atom once", f)
                    if pid == "C04": variables(c, p, va, x, excl, f); apart(c, p, a, s, x, excl, first, f, lp)
                else:
                    if pid == "C03": c.on_path("C03.batch-keep", p, True if at == attr(x, "atoms") else None, "", f)
                    if pid == "C04": c.on_path("C04.merge-variables", p, True if va == attr(x, "variables") else None, "", f)
                continue
            c.on_path(pid + ".batches", p, None, "", f); continue
        if e[0] == "setat" and is_t(e[2], "new") and is_t(e[1], "idx"):
            i = e[1]; tgt = T("item", s, i); b = e[2]
            at, va = fieldof(b, "atoms"), fieldof(b, "variables")
            pr = parts(p, at); xa = ("one", x) if first else ("spread", attr(x, "atoms"))
            if pid == "C03": c.on_path("C03.batch-merge", p, None if pr is None else sorted(map(repr, pr)) == sorted(map(repr, [("spread", attr(tgt, "atoms")), xa])) if not any(is_t(q[1], "slice") for q in pr) else False, "merging two batches does not keep the atoms of both", f)
            if pid == "C04":
                xv = None if first else attr(x, "variables"); tv = attr(tgt, "variables")
                vs = [y for y in subterms(va) if is_call(y, "get_atom_variables")] if first else []
                both = contains(va, tv) and (contains(va, xv) if xv else bool(vs))
                union = is_t(va, "bin") and va[2] == "|" or is_t(va, "set") or is_call(va, "union")
                c.on_path("C04.merge-variables", p, True if both and union else False if not both and not p.imprecise or both and is_t(va, "bin") and va[2] in "&-^" else None, "a merged batch does not have the variables of both", f)
                c.on_path("C04.merge-shared", p, shared(a, tv, xv, x, excl, True), "batches are merged that share no variable, or are not merged", f)
            continue
        c.on_path(pid + ".batches", p, None, "", f)


def fewer_than(q, t):
    """(S, n): the fact says that len(S) < n; n None: it is at least something"""
    if q[0] == "lt" and q[2] == K(0):
        v = q[1]; k = 0
        if is_t(v, "bin") and v[2] == "+" and is_k(v[4]): k = kv(v[4]); v = v[3]
        if is_t(v, "len"): return v[2], (-k if t else None)
    return None


def shared(a, tv, xv, x, excl, truth):
    for q, t in a.facts.items():
        b = fewer_than(q, t)
        if b and is_t(b[0], "bin") and b[0][2] == "&" and contains(b[0], tv) and (contains(b[0], xv) if xv else contains(b[0], x)):
            if b[1] is not None and b[1] > 1 and truth is False: return False      # one shared variable is not enough
            return None
        if q[0] == "truthy" and is_t(q[1], "bin") and q[1][2] == "&" and contains(q[1], tv) and (contains(q[1], xv) if xv else contains(q[1], x)): return t is truth
    return None


def apart(c, p, a, s, x, excl, first, f, lp):
    """a batch stays on its own: it shares no variable with any batch before it"""
    inner = [L for L in a.loops if strip_seq(p.eng.loops[L].dom)[0] == s]
    if not inner:
        # the first list of batches, before any merging
        grows = any(e[0] != "one" for al in lp.alts for e in al.emits.get(s[2][2], ()))
        c.on_path("C04.apart", p, True if first and not grows else None, "", f); return
    for L in inner:
        il = p.eng.loops[L]; mode, al = a.loops[L]
        ok = mode == "all" and strip_seq(il.dom)[1] in ("all", "reversed")
        tv = attr(T("item", s, idx(L)), "variables"); xv = None if first else attr(x, "variables")
        for k, ia in enumerate(il.alts):
            if al is not None and k not in al: continue
            r = shared(ia, tv, xv, x, excl, False)
            if r is None: ok = None if ok else ok
            elif not r: ok = False
        c.on_path("C04.apart", p, ok, "a batch that shares a variable with another one stays apart", f)


def variables(c, p, va, x, excl, f):
    g = [y for y in subterms(va) if is_call(y, "get_atom_variables")]
    if not g:
        got = [i.val for i in p.seq(va[3] if is_t(va, "bin") and va[2] == "-" else va) or [] if i.kind == "one"]
        if got and all(is_t(y, "attr") and y[3] == K("name") and is_t(y[2], "item") and (y[2][2] == x) for y in got) or got and all(is_t(y, "attr") and is_t(y[2], "item") and y[2][2] == x for y in got):
            c.on_path("C04.variables", p, False, "a batch only has the variables that stand directly in its atom", f); return
    if not any(y[4][:1] == (x,) for y in g): c.on_path("C04.variables", p, False if g or is_t(va, "set") and len(va) == 2 else None, "a batch does not have the variables of its atom", f); return
    if any(is_t(y, "slice") and y[3:5] not in ((NONE, NONE), (K(0), NONE)) and any(contains(y, z) for z in g if z[4][:1] == (x,)) for y in subterms(va)): c.on_path("C04.variables", p, False, "a batch does not have all variables of its atom", f); return
    full = va if not (is_t(va, "bin") and va[2] == "-") else va[3]
    cut = is_t(va, "bin") and va[2] == "-"
    c.on_path("C04.variables", p, True if not cut or va[4] == excl or contains(va[4], excl) and not contains(va[4], x) else False if contains(va[4], x) else None, "a batch does not have the variables of its atom", f)
    if is_t(va, "bin") and va[2] in "&^": c.on_path("C04.variables", p, False, "a batch does not have the variables of its atom", f)


def stable(c, p, lp, ph, f):
    """merging goes on until nothing changes"""
    for e in lp.exits:
        if e.ctl[0] == "raise": continue
        ok = None
        for q, t in e.facts.items():
            if q[0] == "eq" and all(is_t(z, "len") for z in q[1:]) and any(z[2] == ph for z in q[1:]): ok = t
            if q[0] == "lt":
                sides = []
                for z in q[1:]:
                    k = 0
                    if is_t(z, "bin") and z[2] == "+" and is_k(z[4]): k = kv(z[4]); z = z[3]
                    sides.append((z[2], k) if is_t(z, "len") else None)
                if None in sides or not any(z == ph for z, k in sides): continue
                (a, ka), (b, kb) = sides
                # the merged list is never longer than the list it was made from
                if b == ph: ok = (not t and ka <= kb or None) if not t else False        # new + ka < old + kb
                else: ok = True if t and ka >= kb - 1 else None if t else False           # old + ka < new + kb
                if b == ph and not t and ka <= kb: ok = True
        if ok is None and not any(contains(q, ph) for q in e.facts): ok = False
        c.on_path("C04.stable", p, ok, "merging stops before every batch that shares a variable is merged", f)


def restore(c):
    """atoms of a batch in the order of the atoms: each that was in the batch, once"""
    f = c.prog.method(II, "restore_atom_order"); atoms, batch = (param(x) for x in f.params[1:3]); n = 0
    BA = attr(batch, "atoms")
    def base(d):
        """the batch's atoms, or what remains of them"""
        b, how = strip_seq(d)
        if is_t(b, "list") and len(b) == 4 and b[2][0] == "spread" and b[3][0] == "acc": b = strip_seq(b[2][1])[0]
        if is_t(b, "phi") and strip_seq(strip_copy(p.eng.freeze(p.st, p.eng.loops[b[2]].phi_init.get(b[3], b))))[0] == BA: b = BA
        return b
    for p in c.method(II, "restore_atom_order"):
        if p.raises: continue
        v = p.v; n += 1
        if v == batch: c.on_path("C03.restore", p, True, "", f); continue
        at = fieldof(v, "atoms") if is_t(v, "new") else None
        if at is None: c.on_path("C03.restore", p, None, "", f); continue
        va = fieldof(v, "variables")
        c.on_path("C03.restore-variables", p, True if va == attr(batch, "variables") else False if not contains(va, batch) else None, "a batch loses its variables", f)
        if at == BA: c.on_path("C03.restore", p, True, "", f); continue
        if is_t(at, "sorted") and at[2] == BA: c.on_path("C03.restore", p, True, "", f); continue
        if cut_short(c, "C03.restore-all", p, atoms, f, "atoms are lost when their order is restored"): continue
        if at == EMPTY: c.on_path("C03.restore", p, False, "the atoms of a batch are lost", f); continue
        if not is_t(at, "list") or len(at) != 3 or at[2][0] != "acc": c.on_path("C03.restore", p, None, "", f); continue
        L, obj = at[2][1:3]; lp = p.eng.loops[L]; dom, how = strip_seq(lp.dom)
        if dom != atoms: c.on_path("C03.restore", p, None, "", f); continue
        c.on_path("C03.restore-all", p, how in ("all",) if how != "reversed" else False, "atoms are lost, or their order is changed, when their order is restored", f)
        x = T("item", atoms, idx(L))
        for k, a in enumerate(lp.alts):
            em = a.emits.get(obj, ())
            if not em:
                # nothing in the batch is equal to the atom
                skip = None
                for q, (mode, al) in a.loops.items():
                    il = p.eng.loops[q]
                    if base(il.dom) == BA: skip = strip_seq(il.dom)[1] == "all" and mode == "all"
                    if al is not None and not al: skip = skip
                for q, t in a.facts.items():
                    if q[0] == "in" and q[1] == x: skip = not t
                c.on_path("C03.restore", p, skip, "an atom of the batch is lost", f); continue
            if len(em) > 1: c.on_path("C03.restore", p, None, "", f); continue
            e = em[0]
            if e[0] == "acc": # every equal atom, for each of the atoms
                c.on_path("C03.restore", p, False, "an atom that occurs more than once is doubled", f); continue
            if e[0] != "one" or not (e[1] == x or is_t(e[1], "item") and base(e[1][2]) == BA): c.on_path("C03.restore", p, None, "", f); continue
            eq = any(t and q[0] == "eq" and x in q[1:] and any(is_t(z, "item") and base(z[2]) == BA for z in q[1:]) for q, t in a.facts.items()) or any(t and q[0] == "in" and q[1] == x for q, t in a.facts.items()) 
            ne = any(t is False and q[0] == "eq" and x in q[1:] for q, t in a.facts.items())
            c.on_path("C03.restore-equal", p, True if eq else False if ne else None, "atoms are lost when their order is restored", f)
            # it is taken out of what remains, so that it is not taken again
            taken = any(g[0] == "rem" and g[1] in (e[1], x) or g[0] in ("del", "pop") for o, gs in a.emits.items() if o != obj for g in gs)
            nx = any(is_t(v2, "list") or is_t(v2, "mut") for v2 in a.next.values())
            for v2 in a.next.values():
                # what remains is filtered: atoms that are equal to it are lost as well
                for i2 in (p.seq(v2) or []) if is_t(v2, "list") else []:
                    if i2.kind == "skip" and i2.alt is not None and any(t and q[0] == "eq" and (e[1] in q[1:] or x in q[1:]) for q, t in i2.alt.facts.items()): c.on_path("C03.restore-once", p, False, "an atom that occurs more than once is lost", f)
            c.on_path("C03.restore-once", p, True if taken else None if nx or any(gs for o, gs in a.emits.items() if o != obj) else False, "an atom that occurs more than once is doubled", f)
    c.ob("C03.restore-found", True if n else None, c.where(f), "restoring the order of atoms analysed")


# ---------------------------------------------------------------- C04
@spec("C04", least=15)
def C04(c):
    from .specs_rules import collects_variables
    chain(c, "C04"); isolate(c, "C04"); batches(c, "C04"); collects_variables(c, "C04", "get_atoms_variables", "get_atom_variables")
    f = c.prog.method("SemanticComposer", "process"); n = 0
    for p in c.method("SemanticComposer", "process", opaque={"check_for_sem", "compose", "optimize", "next", "get_current_product"}):
        comp = [e for e, ch, fa in p.calls("compose")]
        for e, ch, fa in p.calls("optimize"):
            if not comp or len(e.args) < 2 or len(comp[0].args) < 2: continue
            n += 1
            c.on_path("C04.given", p, True if e.args[1] == comp[0].args[1] else False if is_t(e.args[1], "list") and len(e.args[1]) == 2 or is_k(e.args[1]) or is_t(e.args[1], "slice") and strip_seq(e.args[1]) == (comp[0].args[1], "part") else None, "the optimizer is not given the sentence's root variables", f)
            c.on_path("C04.given-sem", p, True if e.args[0] == T("item", comp[0].result, K(0)) else None, "", f)
    c.ob("C04.given-found", True if n else None, c.where(f), "the composer optimizes the meaning")
