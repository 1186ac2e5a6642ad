"""S01-S06: the solver (entry points Solver.solve and Solver.write_atom)."""
from .spec import *
from .spec import _exp

VAR = "richard.entity.Variable.Variable"
RI = "ResultIterator"


def is_sub_isinst(a, name): return a[0] == "isinst" and a[2].split(".")[-1] == name


def single_paths(c, **kw):
    """paths of Solver.solve for a list of one atom; disjunctions apart"""
    ps = c.method("Solver", "solve", **kw)
    atoms = param("atoms")
    one, dis, empty, many, other = [], [], [], [], []
    for p in ps:
        if p.raises and p.v[1] != "?" and p.dec(("isinst", atoms, "list")) is False: other.append(p); continue
        n1 = p.dec(norm_eq(K(1), T("len", atoms)))
        t = p.dec(("truthy", atoms))
        pred = item(item(atoms, 0), 0)
        if n1:
            d = [a for a, t2 in p.facts.items() if a[0] == "eq" and pred in a[1:] and t2]
            (dis if d else one).append(p)
        elif t is False: empty.append(p)
        else:
            many.append(p)
            # an error for the first atom, before it matters whether there are others
            if n1 is None and t and p.raises: one.append(p)
    return ps, one, dis, empty, many, other


def over_args(eng, L, args):
    """a loop over the arguments of the atom, perhaps side by side with the values of a row (which has the same width)"""
    return dom_of(eng, L) == args or args in eng.loops[L].seqs and all(x == args or is_t(x, "item") for x in eng.loops[L].seqs)


def relation_events(p):
    """calls of query functions of relations: the call event's receiver is a relation of some module"""
    return p.calls("query_function")


def model_loops(p):
    """loops of this path over the modules of the model, with their path-level permission"""
    out = []
    for e in p.st.trace:
        if e.kind == "loop":
            lp = p.eng.loops[e.L]; d = dom_of(p.eng, e.L)
            if is_t(d, "attr") and d[3] == "modules": out.append((e.L, lp))
    return out


def offers(facts, L, pred):
    """does an alternative's fact set say that module i offers the predicate?"""
    for a, t in facts.items():
        if a[0] == "in" and a[1] == pred and contains(a[2], idx(L)): return t
        if a[0] == "isnone" and contains(a[1], idx(L)) and contains(a[1], pred): return not t
    return None


def check_unknown(c, p, pred, func):
    """this path has no error: some module must offer the predicate"""
    ml = model_loops(p)
    if not ml: return None
    for L, al in p.st.exists:
        lp = p.eng.loops[L]
        if lp in [x for _, x in ml] and al and all(offers(lp.alts[i].facts, L, pred) is True for i in al if i < len(lp.alts)): return True
    # a relation was called at the top of the path (leaving the loop early)
    if any(True for e, ch, f in p.calls("query_function", deep=False)): return True
    # the path allows that no module offered it: all alternatives of some model loop say 'not offered'
    for L, lp in ml:
        mode, al = p.st.loops.get(L, ("all", None))
        vals = [offers(a.facts, L, pred) for i, a in enumerate(lp.alts) if al is None or i in al]
        if any(v is None for v in vals): return None
    return False


@spec("S01", least=4)
def S01(c):
    ps, one, dis, empty, many, other = single_paths(c)
    pred = item(item(param("atoms"), 0), 0)
    sf = c.prog.method("Solver", "solve")
    n = 0
    for p in one:
        if p.returns:
            c.on_path("S01.query-known", p, check_unknown(c, p, pred, sf), "a query is answered although no module may offer its predicate", sf)
        elif p.raises and not p.calls("query_function"):
            n += 1
            m = p.msg()
            c.on_path("S01.query-error-names", p, (m is not None and contains(m, pred)) if not any(is_sub_isinst(a, "list") for a in p.facts if a[1] != param("atoms")) else True, "the error for an unknown predicate does not name it", sf)
    c.ob("S01.query-raises", True if n else False if one and all(not p.imprecise for p in one) else None, c.where(sf), "an unknown predicate raises an error when it is queried")
    ws = c.method("Solver", "write_atom")
    pred = item(param("atom"), 0); wf = c.prog.method("Solver", "write_atom"); n = 0
    for p in ws:
        if p.returns:
            c.on_path("S01.write-known", p, check_unknown(c, p, pred, wf), "an atom is written although no module may offer its predicate", wf)
        else:
            n += 1
            c.on_path("S01.write-error-names", p, p.msg() is not None and contains(p.msg(), pred), "the error for an unknown predicate does not name it", wf)
    c.ob("S01.write-raises", True if n else False if all(not p.imprecise for p in ws) else None, c.where(wf), "an unknown predicate raises an error when it is stored")
    # nothing catches that error on the way
    for p in ps + ws:
        for e, ch, f in p.events("handler"):
            c.ob("S01.not-caught", False, c.where(sf, e.node.lineno), "the solver catches errors")
    # the lookup uses the predicate itself
    ms = c.method("Model", "find_relations"); mf = c.prog.method("Model", "find_relations")
    for p in ms:
        if not p.returns: continue
        for it in p.seq():
            if it.kind == "one":
                r = None
                for a, t in it.facts.items():
                    if a[0] == "in" and t: r = a[1] == param("relation") or (True if r else False)
                c.on_path("S01.exact-lookup", p, r, "a relation is found under another name than the one asked for", mf)


@spec("S02", least=6)
def S02(c):
    # the model: every module that offers the predicate, in order
    mf = c.prog.method("Model", "find_relations")
    pred = param("relation")
    for p in c.method("Model", "find_relations"):
        if p.raises: c.on_path("S02.model-raises", p, None, "find_relations raises", mf); continue
        items = p.seq()
        mods = attr(param("self"), "modules")
        got = 0
        for it in items:
            if it.kind in ("one", "skip") and len(it.chain) == 1:
                L = it.chain[0][0]
                dom = p.eng.loops[L].dom
                c.on_path("S02.model-order", p, True if dom == mods else (False if contains(dom, mods) and is_t(dom) and dom[1] in ("reversed", "slice", "sorted") else None), "modules are not consulted in model order", mf)
                c.on_path("S02.model-all", p, p.st.loops.get(L, ("all",))[0] == "all", "the search for modules stops early", mf)
                o = offers(it.facts, L, pred)
                if it.kind == "one":
                    got += 1
                    good = is_t(it.val, "item") and it.val[3] == pred and contains(it.val, T("item", mods, idx(L)))
                    c.on_path("S02.model-relation", p, True if good and o is not False else (False if o is False else None), "a relation is taken from a module that does not offer the predicate", mf)
                else: c.on_path("S02.model-skip", p, False if o is True else True if o is False else None, "a module that offers the predicate is skipped", mf)
            elif it.kind == "one" and not it.chain:
                # at most a first match
                c.on_path("S02.model-all", p, False, "only one module's relation is used", mf)
            else: c.on_path("S02.model-form", p, None, "relations are collected in a way that is not understood", mf)
    # the query: every one of them is called, all rows are kept
    sf = c.prog.method("Solver", "solve")
    ps, one, dis, empty, many, other = single_paths(c)
    pred = item(item(param("atoms"), 0), 0)
    for p in one:
        ml = model_loops(p)
        if p.raises: continue
        ret = p.v
        ri = [a for a, t in p.facts.items() if t and is_sub_isinst(a, RI)]
        if ri and ri[0][1] == ret or (is_t(ret, "call") and ret[2] == "query_function"):
            # a lazy result is the only result
            okn = None
            for a, t in p.facts.items():
                if a[0] == "lt" and any(x[0] == "t" and x[1] in ("len",) for x in subterms(a)): okn = (at_most_one(a, t)) if okn is not True else True
                if a[0] == "eq" and any(is_t(x, "len") for x in a[1:]) and t and K(1) in a[1:]: okn = True
            if okn is None and not any(a[0] in ("lt",) for a in p.facts): okn = False
            c.on_path("S02.lazy-alone", p, okn, "a lazy result is returned although other modules may offer the predicate too", sf)
            continue
        # the rows: find the collection that query results go to
        rows = row_items(p)
        if rows is None:
            tested = raw = False
            for ch, f, al in nests(p.eng, p.st.trace, p.st.loops):
                d = dom_of(p.eng, ch[-1][0])
                if call_named(d, "query_function"):
                    e = T("item", d, idx(ch[-1][0])); raw = True
                    tested |= any(x[0] in ("in", "eq") and contains(x, e) and not is_t(x[1], "len") for x in f)
            c.on_path("S02.distinct" if raw else "S02.rows", p, False if raw and not tested else None, "rows of a module are added without removing duplicates" if raw else "rows of the answer are collected in a way that is not understood", sf)
            continue
        for L, lp in ml:
            for i, a in enumerate(lp.alts):
                o = offers(a.facts, L, pred)
                calls = [e for e, ch, f in walk_trace(p.eng, a.trace, a.loops, (), {}, "call", "query_function", True)]
                if any(True for l2, q in ml for b in q.alts for e, ch, f in walk_trace(p.eng, b.trace, b.loops, (), {}, "call", "query_function", True)):
                    if loop_calls(p, L, "query_function"):
                        c.on_path("S02.all-called", p, (len(calls) == 1 if o else True if o is False and not calls else None), "a module that offers the predicate is not asked exactly once", sf)
                        c.on_path("S02.call-loop-complete", p, p.st.loops.get(L, ("all",))[0] == "all", "not all modules that offer the predicate are asked", sf)
        for it in rows:
            inner = it.chain[-1][0]; dom = dom_of(p.eng, inner); elem = T("item", dom, idx(inner))
            c.on_path("S02.rows-in-order", p, True if p.eng.loops[inner].dom == dom else None, "rows of a module are not taken in their order", sf)
            if any(m != "all" for m in it.loops): c.on_path("S02.all-rows", p, False, "not all rows of a module are taken", sf)
            seen = [(a, t) for a, t in it.facts.items() if a[0] == "in" and contains(a[1], elem)]
            if it.kind == "skip":
                c.on_path("S02.no-row-lost", p, any(t for a, t in seen) if not [a for a in it.alt.facts if a[0] != "in"] or seen else False, "a row of a module is dropped that was not in the answer yet", sf)
                for a, t in seen:
                    if t: c.on_path("S02.dup-key", p, dup_key_ok(a[1], elem), "rows are taken for duplicates by something that differs from the row", sf)
            elif it.kind == "one":
                c.on_path("S02.row-itself", p, True if it.val == elem else None, "a row is changed", sf)
                c.on_path("S02.distinct", p, any(not t for a, t in seen), "a row can be in the answer twice", sf)
            elif it.kind == "put":
                c.on_path("S02.row-itself", p, True if it.val == elem else None, "a row is changed", sf)
                c.on_path("S02.dup-key", p, dup_key_ok(it.key, elem), "rows are taken for duplicates by something that differs from the row", sf)
    # writing
    wf = c.prog.method("Solver", "write_atom"); pred = item(param("atom"), 0)
    for p in c.method("Solver", "write_atom"):
        if p.raises: continue
        seen = 0
        for L, lp in [(e.L, p.eng.loops[e.L]) for e in p.st.trace if e.kind == "loop"]:
            if not loop_calls(p, L, "write_function"): continue
            c.on_path("S02.write-all", p, p.st.loops.get(L, ("all",))[0] == "all", "writing stops before all modules were written to", wf)
            mode, al = p.st.loops.get(L, ("all", None))
            for i, a in enumerate(lp.alts):
                if al is not None and i not in al: continue
                o = offers(a.facts, L, pred)
                calls = [e for e, ch, f in walk_trace(p.eng, a.trace, a.loops, (), {}, "call", "write_function", True)]
                nowrite = [t for x, t in a.facts.items() if x[0] in ("isnone", "truthy", "callable") and is_t(x[1], "attr") and x[1][3] == "write_function"]
                isnone = [(t if x[0] == "isnone" else not t) for x, t in a.facts.items() if x[0] in ("isnone", "truthy", "callable") and is_t(x[1], "attr") and x[1][3] == "write_function"]
                seen += 1
                if calls:
                    c.on_path("S02.write-once", p, len(calls) == 1, "an atom is written more than once to a module", wf)
                    for e in calls:
                        good = e.args and (e.args[0] == T("slice", param("atom"), K(1), NONE, NONE))
                        c.on_path("S02.write-args", p, True if good else None, "other values than the atom's arguments are written", wf)
                else:
                    c.on_path("S02.write-skip", p, True if (o is False or True in isnone) else False if o is True else None, "a module that offers the predicate with a write function is not written to", wf)
        top = p.calls("write_function", deep=False)
        if top: c.on_path("S02.write-all", p, False, "only one module is written to", wf)
        elif not seen:
            c.on_path("S02.write-called", p, None if p.imprecise else False if not p.calls("write_function") and not no_offer(p, pred) else True, "storing an atom writes nothing", wf)


def no_offer(p, pred):
    return False


def loop_calls(p, L, name):
    lp = p.eng.loops[L]
    return any(True for a in lp.alts for e, ch, f in walk_trace(p.eng, a.trace, a.loops, (), {}, "call", name, True))


def at_most_one(a, t):
    """lt fact over len(relations): does it say len <= 1 ?"""
    x, y = a[1], a[2]
    def lin(v):
        if is_k(v): return None, kv(v)
        if is_t(v, "bin") and v[2] == "+" and is_k(v[4]): return v[3], kv(v[4])
        return v, 0
    (b1, k1), (b2, k2) = lin(x), lin(y)
    if b1 is not None and is_t(b1, "len") and b2 is None:       # len + k1 < k2
        return (k2 - k1 <= 2) if t else False
    if b2 is not None and is_t(b2, "len") and b1 is None:       # k1 < len + k2 ; negated: len <= k1 - k2
        return (k1 - k2 <= 1) if not t else False
    return None


def dup_key_ok(key, elem):
    """the duplicate test must be injective on rows as far as their content goes"""
    if key == elem: return True
    if is_t(key, "str") and key[2] == elem: return True
    if is_t(key, "tupof") and key[2] == elem: return True
    if is_t(key, "call") and key[2] in ("repr", "json.dumps", "tuple") and elem in key[4]: return True
    if is_t(key, "item") and key[2] == elem: return False
    if is_t(key, "slice") and key[2] == elem: return False
    if is_t(key, "len"): return False
    return False if lossy(key, elem) else None


def lossy(key, elem):
    """different rows have the same key: order, multiplicity, case or a part of the row is dropped"""
    for _ in range(6):
        if is_t(key, "str", "tupof") or is_t(key, "call") and key[2] in ("repr", "json.dumps", "tuple", "str", "list"):
            nxt = key[2] if not is_t(key, "call") else key[4][0] if len(key[4]) == 1 else None
            if nxt is None: return False
            key = nxt; continue
        break
    if key == elem or not contains(key, elem): return False
    if is_t(key, "sorted"): return key[2] == elem or lossy(key[2], elem)
    if is_t(key, "set", "oset") and len(key) > 2: return any(contains(x, elem) for x in key[2:])
    if is_t(key, "len", "sum", "extremum"): return True
    if is_t(key, "item", "slice"): return key[2] == elem
    if is_t(key, "call") and key[2] in ("lower", "upper", "casefold", "strip", "type", "frozenset", "set", "round", "int", "abs", "capitalize", "title"): return True
    return False


def row_items(p):
    """what happens to each row of each module's answer: it goes to the collection of rows (one / put under a key) or not (skip)"""
    eng = p.eng; best = {}
    ns = [x for x in nests(eng, p.st.trace, p.st.loops) if call_named(dom_of(eng, x[0][-1][0]), "query_function")]
    def puts(ch, al, oid=None):
        e = T("item", dom_of(eng, ch[-1][0]), idx(ch[-1][0]))
        for o, gs in al.emits.items():
            if oid is not None and o != oid: continue
            for g in gs:
                if g[0] == "one" and g[1] == e: yield o, Item("one", e, None, None)
                elif g[0] == "put" and g[2] == e: yield o, Item("put", e, None, None, key=g[1])
    for ch, f, al in ns:
        for o, it in puts(ch, al): best[o] = min(best.get(o, 9), 0 if it.kind == "one" else 1)
    if not best: return None
    oid = min(best, key=lambda o: (best[o], repr(o)))
    loops = {ch[-1][0] for ch, f, al in ns for o, it in puts(ch, al, oid)}
    out = []
    for ch, f, al in ns:
        if ch[-1][0] not in loops: continue
        got = [it for o, it in puts(ch, al, oid)]
        for it in got or [Item("skip", None, None, None)]:
            it.chain = tuple((L, i) for L, i, m in ch); it.facts = f; it.alt = al; it.loops = [m for L, i, m in ch]
            out.append(it)
    return out


# ------------------------------------------------------------------ S03
def result_dicts(p):
    """Items of the list a solve path returns: each a dict (the extended binding)"""
    return [i for i in p.seq()]


@spec("S03", least=6)
def S03(c):
    sf = c.prog.method("Solver", "solve")
    ps, one, dis, empty, many, other = single_paths(c)
    binding = param("binding"); args = T("slice", item(param("atoms"), 0), K(1), NONE, NONE)
    found = 0
    for p in one:
        if p.raises: continue
        if is_t(p.v, "call"): continue     # lazy result
        items = p.seq()
        for it in items:
            if it.kind == "skip":
                check_drop(c, p, it, binding, args, sf); continue
            if it.kind == "spread": c.on_path("S03.form", p, None, "solutions are collected in a way that is not understood", sf); continue
            d = it.val
            if strip_copy(d) == binding:
                # extends nothing: only right when there are no arguments to bind
                c.on_path("S03.binds", p, False, "a solution does not contain the values of the row", sf); continue
            if not is_t(d, "dict"): c.on_path("S03.form", p, None, "a solution is not built as a dict", sf); continue
            found += 1
            segs = d[2:]
            hasbase = any(s[0] == "update" and s[1] == binding for s in segs)
            c.on_path("S03.extends", p, True if hasbase else False if not any(s[0] == "update" for s in segs) else None, "a solution does not contain the incoming binding", sf)
            if hasbase and segs[0] != ("update", binding) and not all(s[0] in ("acc", "put", "update") for s in segs):
                c.on_path("S03.extends", p, None, "order of updates", sf)
            base_last = hasbase and segs[-1] == ("update", binding) and len(segs) > 1
            row = None
            for s in segs:
                if s[0] != "acc": continue
                L = s[1]; lp = p.eng.loops[L]
                allowed = it.loops.get(L, p.st.loops.get(L, ("all", None)))
                mode, al = allowed
                dom = dom_of(p.eng, L)
                c.on_path("S03.all-arguments", p, (mode == "all") if over_args(p.eng, L, args) else None, "not every argument of the atom is looked at", sf)
                for i, a in enumerate(lp.alts):
                    if al is not None and i not in al: continue
                    check_arg_alt(c, p, a, L, binding, args, s[2], sf, it, base_last)
    c.ob("S03.found", True if found else None, c.where(sf), "the solutions of an atom are built as dicts")


def arg_class(p, facts, arg, binding, res=None):
    """(is_variable, bound, seen_before, equal_to_previous, row_none, row_equal)"""
    eng = p.eng; st = fstate(facts)
    isv = [t for a, t in facts.items() if a[0] == "isinst" and a[1] == arg and a[2].split(".")[-1] == "Variable"]
    isv = isv[0] if isv else None
    name = T("attr", arg, "name")
    bound = facts.get(("in", name, binding))
    return isv, bound


def value_of(p, facts, arg, v, L):
    return None


def check_arg_alt(c, p, a, L, binding, args, oid, sf, it, base_last):
    eng = p.eng; facts = {**it.facts, **a.facts}
    arg = el(eng, args, L); name = T("attr", arg, "name")
    isv, bound = arg_class(p, a.facts, arg, binding)
    puts = [g for g in a.emits.get(oid, ()) if g[0] == "put"]
    if any(g[0] != "put" for g in a.emits.get(oid, ())): c.on_path("S03.form", p, None, "binding extended in a way that is not understood", sf); return
    rows = rows_in(a, L)
    if isv is None:
        c.on_path("S03.kind", p, None if puts or a.facts else None, "argument kind is not tested", sf); return
    if isv is False:
        ok = const_ok(eng, a.facts, arg, L)
        c.on_path("S03.constant", p, ok, "a row is accepted although its value for a constant argument differs (or was not compared)", sf)
        if puts: c.on_path("S03.constant-binds", p, False, "a constant argument changes the binding", sf)
        return
    # variable
    if bound is None:
        # tested through the result that starts as the binding?
        inres = [t for f, t in a.facts.items() if f[0] == "in" and f[1] == name]
        if inres and inres[0] is True:
            # bound before or seen before: must not be overwritten with a different value
            ok = not puts or any(f[0] == "eq" and t for f, t in a.facts.items())
            c.on_path("S03.keeps-bound", p, ok, "a variable that was bound gets another value", sf)
            if not puts:
                eqs = [t for f, t in a.facts.items() if f[0] == "eq" and any(is_row_val(x, L, arg) for x in f[1:])]
                c.on_path("S03.twice-equal", p, True if True in eqs else False, "a variable that occurs twice is not compared with its first value", sf)
            return
        if inres and inres[0] is False: bound = False
        else:
            if base_last or not puts: pass
            c.on_path("S03.keeps-bound", p, True if base_last else False if puts else None, "a variable that is already bound is overwritten by the row", sf); return
    if bound is True:
        good = not puts or all(g[1] == name and g[2] == T("item", binding, name) for g in puts)
        c.on_path("S03.keeps-bound", p, True if good or base_last else False, "a variable that is already bound is overwritten by the row", sf)
        return
    # unbound variable: gets its own value, or has it already
    prev = [(f, t) for f, t in a.facts.items() if f[0] == "in" and f[1] == name and f[2] != binding]
    eqs = [(f, t) for f, t in a.facts.items() if f[0] == "eq" and any(is_row_val(x, L, arg) for x in f[1:]) and any(contains(x, name) for x in f[1:])]
    if puts:
        good = all(g[1] == name and is_row_val(g[2], L, arg) for g in puts)
        wrongrow = any(g[1] != name or (is_t(g[2], "item") and not is_row_val(g[2], L, arg)) for g in puts)
        c.on_path("S03.own-position", p, True if good else False if wrongrow else None, "a variable gets a value that does not stand in its own position", sf)
    else:
        seen = any(t for f, t in prev)
        c.on_path("S03.binds", p, True if seen else False, "a fresh variable gets no value", sf)
    if any(t for f, t in prev):
        c.on_path("S03.twice-equal", p, True if any(t for f, t in eqs) else False, "a variable that occurs twice may get two different values", sf)
    elif not prev and not eqs:
        # nothing tests for an earlier occurrence
        c.on_path("S03.twice-equal", p, False if puts else None, "a variable that occurs twice may get two different values", sf)


def is_row_val(x, L, arg):
    return is_t(x, "item") and x != arg and x[3] == idx(L) and not (is_t(x[2], "slice"))


def rows_in(a, L): return None


def const_ok(eng, facts, arg, L):
    for f, t in facts.items():
        if f[0] == "isnone" and t and is_row_val(f[1], L, arg): return True
        if f[0] == "eq" and t and arg in f[1:] and any(is_row_val(x, L, arg) for x in f[1:]): return True
        if f[0] == "isinst" and t and f[1] == arg and f[2].split(".")[-1] == "Variable": return True
    return False


def check_drop(c, p, it, binding, args, sf):
    """a row that gives no solution: there must be a conflict"""
    # which argument loop alternatives distinguish the drop?
    conflict = None
    eng = p.eng
    if not any(call_named(dom_of(eng, L), "query_function") for L, _ in it.chain): return
    for L, (mode, al) in it.loops.items():
        lp = eng.loops[L]
        if dom_of(eng, L) != args: continue
        for L2, ex in it.alt.exists if it.alt else ():
            if L2 == L:
                for i in ex:
                    r = real_conflict(eng, lp.alts[i].facts, el(eng, args, L), binding, L)
                    conflict = r if conflict is None else (conflict and r)
        for x in lp.exits:
            pass
    # dropped inside the argument loop (break/continue): the facts of the alternative say so
    for f, t in it.facts.items():
        pass
    if conflict is None:
        # exit facts of an inner loop are part of the skip's own facts
        for L, (mode, al) in it.loops.items():
            if over_args(eng, L, args) and mode == "prefix":
                conflict = real_conflict(eng, it.facts, el(eng, args, L), binding, L)
    if conflict is None:
        dupfact = [f for f, t in it.facts.items() if t and f[0] == "in" and any(is_t(x, "dict") for x in subterms(f))]
        if dupfact or any(f[0] == "in" and t for f, t in (it.alt.facts if it.alt else {}).items()): return
    c.on_path("S03.drop", p, conflict, "a row without conflict gives no solution", sf)


def real_conflict(eng, facts, arg, binding, L):
    name = T("attr", arg, "name")
    isv = [t for a, t in facts.items() if a[0] == "isinst" and a[1] == arg and a[2].split(".")[-1] == "Variable"]
    neq = any(f[0] == "eq" and not t and any(is_row_val(x, L, arg) for x in f[1:]) for f, t in facts.items())
    if not isv: return None
    if isv[0]: return neq
    none = any(f[0] == "isnone" and not t and is_row_val(f[1], L, arg) for f, t in facts.items())
    return neq and none if neq else False


# ------------------------------------------------------------------ S04
@spec("S04", least=5)
def S04(c):
    sf = c.prog.method("Solver", "solve")
    names = [m for m in ("solve_single",) if c.prog.cls("Solver").find(m)]
    ps, one, dis, empty, many, other = single_paths(c, opaque=set(names))
    atoms, binding = param("atoms"), param("binding")
    first = None
    single = set()
    for p in ps:
        for e, ch, f in p.calls():
            if e.recv == param("self") and e.args[:1] == (item(atoms, 0),): single.add(e.name)
    rest = T("slice", atoms, K(1), NONE, NONE)
    for p in one:
        if p.raises: continue
        if is_t(p.v, "call") and p.v[2] in single:
            c.on_path("S04.one", p, True if p.v[4] == (item(atoms, 0), binding) else None, "a single atom is solved under another binding", sf)
    for p in empty:
        its = p.seq() if p.returns else []
        ok = p.returns and len(its) == 1 and its[0].kind == "one" and strip_copy(its[0].val) == binding and not its[0].chain
        wrong = p.returns and (len(its) == 0 or all(i.kind == "one" and strip_copy(i.val) != binding for i in its) or len(its) > 1)
        c.on_path("S04.empty", p, True if ok else False if wrong or p.raises else None, "the empty conjunction must have exactly the incoming binding as its solution", sf)
    c.ob("S04.empty-covered", True if empty else None, c.where(sf), "the empty conjunction is treated")
    good = 0
    for p in many:
        if p.raises: continue
        if not single: c.on_path("S04.join", p, None, "the call that solves the first atom was not found", sf); continue
        for it in p.seq():
            doms = [dom_of(p.eng, L) for L, _ in it.chain]
            raw = [p.eng.loops[L].dom for L, _ in it.chain]
            modes = [m for L, _ in it.chain for m in [p.st.loops.get(L, it.loops.get(L, ("all", None)))[0]]]
            if it.kind in ("unknown", "setat") or not doms: c.on_path("S04.join", p, None, "solutions are collected in a way that is not understood", sf); continue
            d0 = doms[0]
            if is_t(d0, "slice", "reversed", "sorted", "set") and is_t(d0[2], "call") and d0[2][2] in single:
                c.on_path("S04.first", p, False, "not all solutions of the first atom are continued in their order", sf); continue
            ok0 = is_t(d0, "call") and d0[2] in single and d0[4][:2] == (item(atoms, 0), binding)
            c.on_path("S04.first", p, True if ok0 and raw[0] == d0 else False if ok0 or (is_t(d0, "call") and d0[2] in single) else None, "the first atom is not solved under the incoming binding, or its solutions are taken in another order", sf)
            b = T("item", d0, idx(it.chain[0][0]))
            if len(doms) == 2:
                d1 = doms[1]
                if is_t(d1, "slice", "reversed", "sorted", "set") and call_named(d1[2], "solve"):
                    c.on_path("S04.rest", p, False, "not all solutions of the rest are taken in their order", sf); continue
                ok1 = call_named(d1, "solve") and d1[4][:2] == (rest, b)
                bad1 = call_named(d1, "solve") and (len(d1[4]) < 2 or d1[4][0] != rest or not contains(d1[4][1], b))
                c.on_path("S04.rest", p, True if ok1 and raw[1] == d1 else False if bad1 or ok1 else None, "the rest of the list is not solved under each solution of the first atom", sf)
                e1 = T("item", d1, idx(it.chain[1][0]))
                inf = [t for a, t in it.facts.items() if a[0] == "in" and a[1] == e1]
                if it.kind == "one":
                    c.on_path("S04.solution", p, True if strip_copy(it.val) == e1 else False if is_t(it.val, "item") or it.val[0] == "k" else None, "something other than the joined solution is returned", sf)
                    c.on_path("S04.distinct", p, False in inf, "a solution can be in the answer twice", sf)
                    good += 1
                elif it.kind == "skip":
                    c.on_path("S04.keeps", p, True if True in inf else False, "a solution of the conjunction is dropped that is not in the answer yet", sf)
            elif it.kind == "spread":
                v = it.val
                ok1 = call_named(v, "solve") and v[4][:2] == (rest, b)
                c.on_path("S04.rest", p, True if ok1 else False if call_named(v, "solve") else None, "the rest of the list is not solved under each solution of the first atom", sf)
                c.on_path("S04.distinct", p, False, "a solution can be in the answer twice", sf)
            elif it.kind == "skip":
                # an alternative of the outer loop without emission: must follow from an empty inner answer
                c.on_path("S04.keeps", p, True if any(a[0] == "truthy" and call_named(a[1], "solve") and not t for a, t in it.facts.items()) else False, "solutions under a solution of the first atom are dropped", sf)
            for m, (L, _) in zip(modes, it.chain):
                c.on_path("S04.complete", p, m == "all", "the join stops before all solutions were tried", sf)
    c.ob("S04.join-found", True if good else None, c.where(sf), "a conjunction joins the solutions of its atoms")
    # disjunction
    ps, one, dis, empty, many, other = single_paths(c)
    alts = None; n = 0
    for p in dis:
        if p.raises: continue
        body = item(item(atoms, 0), 1)
        if call_named(p.v, "solve") or is_t(p.v, "call"):
            n += 1
            L = [e.L for e in p.st.trace if e.kind == "loop"]
            ok = p.v[4][:2] == (el(p.eng, body, L[0]), binding) if L else False
            c.on_path("S04.disjunct", p, True if ok else None if not L else False, "a disjunct is not solved under the incoming binding", sf)
            c.on_path("S04.disjunct-success", p, True if p.dec(("truthy", p.v)) is True else False, "a disjunct without solutions ends the disjunction", sf)
            if L:
                c.on_path("S04.disjunct-order", p, True if p.eng.loops[L[0]].dom == body else False if is_t(p.eng.loops[L[0]].dom, "reversed") else None, "alternatives are not tried in order", sf)
        elif is_t(p.v, "slice", "reversed", "sorted") and call_named(p.v[2], "solve"):
            n += 1; base = p.v[2]; hi = p.v[4] if is_t(p.v, "slice") else NONE
            about = [(a, t) for a, t in p.facts.items() if contains(a, base) and a[0] != "truthy" or any(contains(a, x) for x in base[4][:1])and a[0] != "truthy" or a[0] == "truthy" and a[1] != base and contains(base, a[1])]
            small = [x for a, t in about if a[0] == "eq" and t and T("len", base) in a[1:] for x in a[1:] if is_k(x)]
            cut = is_t(p.v, "slice") and (is_k(p.v[3]) and p.v[3] not in (NONE, K(0)) or is_k(hi) and hi != NONE and (not about or any(x[2] > hi[2] for x in small if isinstance(hi[2], int) and isinstance(x[2], int))))
            c.on_path("S04.disjunct-first", p, False if cut or is_t(p.v, "reversed") and not about else None, "a disjunction does not return all solutions of its alternative, in their order", sf)
        else:
            its = p.seq()
            if not its:
                ev = [e for e in p.st.trace if e.kind == "loop"]
                ok = bool(ev) and p.st.loops[ev[0].L][0] == "all"
                c.on_path("S04.disjunct-none", p, True if ok else False, "a disjunction fails before all its alternatives were tried", sf)
                for e in ev:
                    for a in p.eng.loops[e.L].alts:
                        f = [t for x, t in a.facts.items() if x[0] == "truthy" and call_named(x[1], "solve")]
                        c.on_path("S04.disjunct-skip", p, (False in f) if a.facts or a.trace else False, "an alternative is skipped without having failed", sf)
            else:
                multi = any(i.chain for i in its)
                c.on_path("S04.disjunct-first", p, False if multi else None, "a disjunction combines the solutions of several alternatives", sf)
    c.ob("S04.disjunction-found", True if n else None, c.where(sf), "a disjunction returns the solutions of an alternative")


# ------------------------------------------------------------------ S05
@spec("S05", least=3)
def S05(c):
    sf = c.prog.method("Solver", "solve")
    ps, one, dis, empty, many, other = single_paths(c)
    args = T("slice", item(param("atoms"), 0), K(1), NONE, NONE); pred = item(item(param("atoms"), 0), 0)
    n = 0
    for p in one:
        if p.raises:
            m = p.msg()
            if p.v[3] == "explicit" and p.calls("query_function"):
                c.on_path("S05.error-names", p, m is not None and (contains(m, pred) or any(is_t(x, "attr") and x[3] == "predicate" for x in subterms(m))), "an error about a malformed result does not name the predicate", sf)
            continue
        if is_t(p.v, "call"): 
            ri = any(t and is_sub_isinst(a, RI) and a[1] == p.v for a, t in p.facts.items())
            c.on_path("S05.lazy", p, True if ri else False, "the result of a predicate is passed on without looking at it", sf); continue
        for it in p.seq():
            if it.kind not in ("one", "put"): continue
            # the row this solution comes from
            q = [(k, L) for k, (L, _) in enumerate(it.chain) if call_named(dom_of(p.eng, L), "query_function")]
            if not q: c.on_path("S05.form", p, None, "rows are taken in a way that is not understood", sf); continue
            k, L = q[-1]; dom = dom_of(p.eng, L); row = T("item", dom, idx(L)); ch = it.chain[:k + 1]
            n += 1
            for what, atom, msg in (("list", ("isinst", dom, "list"), "a predicate's result is used without checking that it is a list"),
                                    ("row-list", ("isinst", row, "list"), "a row is used without checking that it is a list"),
                                    ("width", norm_eq(T("len", row), T("len", args)), "a row is used without checking that it has one value per argument")):
                ok = fact_entails(p.eng, it.facts, atom) or established(p, ch, atom, facts=it.facts) or established(p, ch[:-1], atom, facts=it.facts)
                if not ok and what == "list": ok = None if False else established_any(p, atom, ch)
                if not ok and what == "width": ok = fact_entails(p.eng, it.facts, norm_eq(T("len", row), T("bin", "-", T("len", item(param("atoms"), 0)), K(1)))) or None
                if not ok and what != "list" and by_number(p, atom[0]): ok = None
                c.on_path("S05." + what, p, True if ok else None if ok is None and what != "list" and by_number(p, atom[0]) else False, msg, sf)
    c.ob("S05.found", True if n else None, c.where(sf), "rows of predicates become solutions")


def by_number(p, kind):
    """the rows are checked in a loop that takes them from the collected list by their number"""
    for ch, f, a in nests(p.eng, p.st.trace, p.st.loops):
        lp = p.eng.loops[ch[-1][0]]; S = dom_of(p.eng, ch[-1][0])
        if is_t(lp.dom, "range") and is_t(S, "list") and any(k[0] == kind and contains(k, T("item", S, idx(ch[-1][0]))) for k in f): return True
    return False


def established_any(p, atom, ch):
    for c2, f, a in nests(p.eng, p.st.trace, p.st.loops):
        m = {idx(L1): idx(L) for (L1, _, _), (L, _) in zip(c2, ch)}
        if any(subst(k, m) == atom and t for k, t in f.items()): return True
    return None


# ------------------------------------------------------------------ S06
@spec("S06", least=5)
def S06(c):
    sf = c.prog.method("Solver", "solve")
    ps, one, dis, empty, many, other = single_paths(c)
    args = T("slice", item(param("atoms"), 0), K(1), NONE, NONE); binding = param("binding"); n = 0
    seen = set()
    for p in one:
        for e, ch, facts in p.calls("query_function"):
            if len(e.args) < 2: c.on_path("S06.call", p, None, "the query function is called with other arguments", sf); continue
            vals, ctx = e.args[0], e.args[1]
            n += 1
            if (vals, ctx) in seen: continue
            seen.add((vals, ctx))
            fa, fb = new_field(ctx, "arguments"), new_field(ctx, "binding")
            c.on_path("S06.arguments", p, None if fa is None else strip_copy(fa) == args, "the predicate does not receive the original arguments", sf)
            c.on_path("S06.binding", p, None if fb is None else strip_copy(fb) == binding, "the predicate does not receive the current binding", sf)
            rel = new_field(ctx, "relation")
            c.on_path("S06.relation", p, None if rel is None else rel == e.recv, "the predicate receives another relation than its own", sf)
            for it in expand(p.eng, p.st, vals):
                if it.kind == "skip": c.on_path("S06.position", p, False, "an argument is left out of the values, so the others shift", sf); continue
                if it.kind != "one" or len(it.chain) != 1 or dom_of(p.eng, it.chain[0][0]) != args:
                    c.on_path("S06.value", p, False if it.kind == "spread" and it.val == args else None, "values are computed in a way that is not understood, or unbound variables are passed as they are", sf); continue
                L, i = it.chain[0]; eng = p.eng; a = eng.loops[L].alts[i]
                if len(a.emits.get([o for o in a.emits if a.emits[o]][0], ())) != 1: c.on_path("S06.position", p, False, "an argument gives more than one value", sf)
                c.on_path("S06.order", p, p.eng.loops[L].dom in (args, T("enumerate", args, K(0))), "values are not in argument order", sf)
                arg = el(eng, args, L); name = T("attr", arg, "name")
                isv, bound = arg_class(p, it.facts, arg, binding)
                extra = [x for x in a.facts if x[0] in ("truthy", "isnone") and contains(x, name)]
                if isv is False: ok = it.val == arg
                elif isv is True and bound is True: ok = it.val == T("item", binding, name)
                elif isv is True and bound is False: ok = it.val == NONE
                elif isv is True and it.val == NONE and extra: ok = False
                else: ok = None
                c.on_path("S06.value", p, ok, "an argument's value is wrong: a constant must be passed as it is, a bound variable as its value, an unbound one as None", sf)
    c.ob("S06.found", True if n else None, c.where(sf), "query functions are called")
    wf = c.prog.method("Solver", "write_atom")
    for p in c.method("Solver", "write_atom"):
        for e, ch, facts in p.calls("write_function"):
            wa = T("slice", param("atom"), K(1), NONE, NONE)
            c.on_path("S06.write", p, True if e.args[:1] == (wa,) else None if not e.args else (False if contains(e.args[0], wa) is False and e.args[0] != wa else None), "the write function does not receive the atom's arguments", wf)
            ctx = e.args[1] if len(e.args) > 1 else None
            fa = new_field(ctx, "arguments") if ctx else None
            c.on_path("S06.write-context", p, None if fa is None else strip_copy(fa) == wa, "the write function's context has other arguments", wf)
