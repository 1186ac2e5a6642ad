"""B01-B12: the built-in predicates (CoreModule and the other library modules), as offered in the relation table."""
from .spec import *

V = lambda i: item(param("values"), i)
CTX = param("context")
BIND, ARGS = attr(CTX, "binding"), attr(CTX, "arguments")
ARGN = lambda i: attr(item(ARGS, i), "name")
CORE = "CoreModule"
WIDTH = {"equals": 2, "greater_than": 2, "less_than": 2, "multiply": 3, "arg_min": 3, "arg_max": 3, "sum": 3, "avg": 3, "percentage": 3, "count": 2,
         "not": 1, "let": 2, "det_equals": 2, "det_greater_than": 2, "det_less_than": 2, "all": 3, "none": 1, "scoped": 1, "store": 1, "find_all": 3, "find_one": 3}


def cases(p, atoms):
    """all truth assignments of `atoms` that are consistent with the path: (tuple of truths, state)"""
    def go(st, i, acc):
        if i == len(atoms): yield tuple(acc), st; return
        for t in (True, False):
            s = p.eng.assume(st, atoms[i], t)
            if s is None: continue
            yield from go(s, i + 1, acc + [t])
    yield from go(p.st, 0, [])


def rows(p):
    """(items, shape): shape 'none' no row on this path, 'one' exactly one row, 'many' rows from a loop, None unknown"""
    v = p.v
    if not (is_t(v, "list") or v[0] == "tup"): return [], None
    its = p.seq()
    real = [i for i in its if i.kind != "skip"]
    if any(i.kind not in ("one",) for i in real): return real, None
    if not real: return [], "none"
    if all(not i.chain for i in real): return real, "one" if len(real) == 1 else "several"
    return real, "many"


def terms(v, width=None):
    """the values of a row, or None"""
    if is_t(v, "list") and all(s[0] == "one" for s in v[2:]): return [s[1] for s in v[2:]]
    if v == param("values") and width: return [V(i) for i in range(width)]
    if is_t(v, "list") and len(v) == 3 and v[2] == ("spread", param("values")) and width: return [V(i) for i in range(width)]
    return None


def is_open(t, i): return t == NONE or t == V(i)


def done_once(c, key, p, n, pred, f):
    """a predicate that is used for its effect: one row that binds nothing"""
    its, shape = rows(p)
    ok = None
    if shape == "one":
        t = terms(its[0].val, n)
        if t is not None: ok = False if len(t) == n and any(is_k(x) and x != NONE for x in t) else True if len(t) == n and all(is_open(x, i) for i, x in enumerate(t)) else None
    elif shape in ("none", "several") or is_k(p.v): ok = False
    c.on_path(key, p, ok, f"{pred} does not succeed exactly once, without binding its arguments", f)


def solve_events(p): return p.calls("solve")


def the_result(p, body):
    """result term of the solve call for a body"""
    r = [e.result for e, ch, f in solve_events(p) if e.args and e.args[0] == body and not ch]
    return r[0] if r else None


def st_dec(p, st, atom): return p.eng.decide(st, atom)


# ---------------------------------------------------------------- success conditions
def check_success(c, pid, pred, p, f, want, width=None, open_row=True):
    """want: True the predicate must succeed on this path, False it must fail, None: the path does not settle it"""
    if p.raises:
        if p.v[3] == "explicit": c.on_path(f"{pid}.{pred}.raises", p, None, f"{pred} raises an error", f)
        return
    its, shape = rows(p)
    key = f"{pid}.{pred}"
    if shape is None: c.on_path(key, p, None, f"the rows of {pred} are not understood", f); return
    if want is None:
        if shape in ("none", "one", "several"):
            c.on_path(key, p, False, f"{pred} {'fails' if shape == 'none' else 'succeeds'} although its condition is not settled", f)
        else: c.on_path(key, p, None, f"{pred}: condition not understood", f)
        return
    if want is False: c.on_path(key, p, shape == "none", f"{pred} succeeds although its condition does not hold", f); return
    if shape != "one":
        c.on_path(key, p, False, f"{pred} {'fails although its condition holds' if shape == 'none' else 'gives more than one row'}", f); return
    c.on_path(key, p, True, f"{pred} succeeds when its condition holds", f)
    if open_row:
        t = terms(its[0].val, width)
        c.on_path(f"{pid}.{pred}.row", p, None if t is None else all(is_open(x, i) for i, x in enumerate(t)), f"the row of {pred} binds variables", f)


@spec("B01", least=6)
def B01(c):
    tab = relation_table(c, CORE)
    for pred, pol in (("not", False), ("none", False), ("scoped", True)):
        e, f, ps = run_handler(c, CORE, pred, table=tab)
        for p in ps:
            R = the_result(p, V(0))
            if R is None:
                if p.returns: c.on_path(f"B01.{pred}", p, False if not solve_events(p) else None, f"{pred} does not solve its body", f)
                continue
            d = p.dec(("truthy", R))
            check_success(c, "B01", pred, p, f, None if d is None else d == pol, 1)


@spec("B04", least=6)
def B04(c):
    tab = relation_table(c, CORE)
    for pred in ("det_equals", "det_greater_than", "det_less_than"):
        e, f, ps = run_handler(c, CORE, pred, table=tab, width=2)
        for p in ps:
            R = the_result(p, V(0))
            if R is None:
                if p.returns: c.on_path(f"B04.{pred}", p, False if not solve_events(p) else None, f"{pred} does not solve its body", f)
                continue
            n, m = T("len", R), V(1)
            atom = {"det_equals": norm_eq(n, m), "det_greater_than": ("lt", m, n), "det_less_than": ("lt", n, m)}[pred]
            check_success(c, "B04", pred, p, f, p.dec(atom), 2)


@spec("B02", least=8)
def B02(c):
    tab = relation_table(c, CORE)
    e, f, ps = run_handler(c, CORE, "equals", table=tab)
    for p in ps:
        for (n0, n1), st in cases(p, [("isnone", V(0)), ("isnone", V(1))]):
            if n0 and n1: continue                                   # B03
            if p.raises:
                if p.v[3] == "explicit": c.on_path("B02.equals", p, False, "equals raises although at most one argument is unbound", f)
                continue
            its, shape = rows(p)
            if shape is None: c.on_path("B02.equals", p, None, "rows not understood", f); continue
            if n0 or n1:
                x = V(1) if n0 else V(0)
                t = terms(its[0].val, 2) if shape == "one" else None
                ok = False if shape == "none" else None if t is None else (t[0 if n0 else 1] == x and (t[1 if n0 else 0] in (x, NONE)))
                c.on_path("B02.equals-binds", p, ok, "equals with one unbound argument does not bind it to the other argument's value", f)
                continue
            d = st_dec(p, st, norm_eq(V(0), V(1)))
            ok = (shape == "one") if d is True else (shape == "none") if d is False else False
            c.on_path("B02.equals", p, ok, "equals does not succeed exactly when its arguments are equal", f)
            if d and shape == "one":
                t = terms(its[0].val, 2)
                c.on_path("B02.equals-row", p, None if t is None else all(x in (V(0), V(1), NONE) for x in t), "equals changes its operands", f)
    for pred, atom in (("greater_than", ("lt", V(1), V(0))), ("less_than", ("lt", V(0), V(1)))):
        e, f, ps = run_handler(c, CORE, pred, table=tab)
        for p in ps:
            for (n0, n1), st in cases(p, [("isnone", V(0)), ("isnone", V(1))]):
                if n0 or n1: continue
                if p.raises:
                    if p.v[3] == "explicit": c.on_path(f"B02.{pred}", p, False, f"{pred} raises although both operands are bound", f)
                    continue
                its, shape = rows(p)
                if shape is None: c.on_path(f"B02.{pred}", p, None, "rows not understood", f); continue
                d = st_dec(p, st, atom)
                c.on_path(f"B02.{pred}", p, (shape == "one") if d is True else (shape == "none") if d is False else False, f"{pred} does not succeed exactly when the comparison holds", f)
                if d and shape == "one":
                    t = terms(its[0].val, 2)
                    c.on_path(f"B02.{pred}-row", p, None if t is None else all(x == NONE or x == V(i) for i, x in enumerate(t)), f"{pred} changes its operands", f)
    e, f, ps = run_handler(c, CORE, "let", table=tab)
    for p in ps:
        if p.raises:
            if p.v[3] == "explicit": c.on_path("B02.let", p, None, "let raises", f)
            continue
        its, shape = rows(p)
        t = terms(its[0].val, 2) if shape == "one" else None
        ok = (None if shape is None else False) if t is None else (t[0] == V(1) and t[1] in (V(1), NONE))
        if ok is False and t is not None and t[0] not in (V(0), V(1), NONE) and not is_k(t[0]): ok = None
        c.on_path("B02.let", p, ok, "let does not bind its first argument to the second", f)


@spec("B03", least=8)
def B03(c):
    tab = relation_table(c, CORE)
    for pred in ("equals", "greater_than", "less_than", "multiply"):
        e, f, ps = run_handler(c, CORE, pred, table=tab)
        msgs = {}
        for p in ps:
            for (n0, n1), st in cases(p, [("isnone", V(0)), ("isnone", V(1))]):
                need = (n0 and n1) if pred == "equals" else (n0 or n1)
                if not need:
                    if p.raises and p.v[3] == "explicit" and pred != "equals": c.on_path(f"B03.{pred}", p, False, f"{pred} raises although its arguments are bound", f)
                    continue
                c.on_path(f"B03.{pred}", p, p.raises and p.v[3] == "explicit", f"{pred} with an unbound argument does not raise a descriptive error", f)
                if p.raises:
                    msgs.setdefault((n0, n1), set()).add(p.msg())
                    c.on_path(f"B03.{pred}.message", p, p.msg() is not None and p.msg() != NONE and p.msg() != K(""), "the error has no message", f)
            for ev, ch, facts in p.events("op"):
                # an operation on a value that may still be missing
                bad = None
                for i in (0, 1):
                    if V(i) in ev.args and p.eng.decide(fstate(ev.facts), ("isnone", V(i))) is not False: bad = i
                c.on_path(f"B03.{pred}.before", p, bad is None, "an operation is attempted before the arguments are known to be bound", f, ev.node.lineno)
        if pred != "equals":
            a, b = msgs.get((True, False), set()), msgs.get((False, True), set())
            if a and b: c.ob(f"B03.{pred}.which", not (a & b), c.where(f), "the error does not say which argument is unbound")


# ---------------------------------------------------------------- B06
def total_of(p, v, R, name):
    """is v the sum over all solutions R of their value of `name`?"""
    eng = p.eng
    if is_t(v, "phi"):
        lp = eng.loops[v[2]]
        if dom_of(eng, v[2]) != R: return False if contains(dom_of(eng, v[2]), R) and is_t(dom_of(eng, v[2]), "slice") else None
        if p.st.loops.get(v[2], ("all", None))[0] != "all" or lp.uniq: return False
        elem = T("item", T("item", R, idx(v[2])), name)
        init = lp.phi_init.get(v[3])
        if not (init and is_k(init) and kv(init) == 0): return False if init and is_k(init) else None
        al = p.st.loops.get(v[2], ("all", None))[1]
        for i, a in enumerate(lp.alts):
            if al is not None and i not in al: continue
            x = a.next.get(v[3], v)
            if x in (T("bin", "+", v, elem), T("bin", "+", elem, v)): continue
            if x == v: return False
            if is_t(x, "bin") and v in x[3:]: return False
            return None
        return True
    if is_t(v, "sum"):
        src = v[2]; start = v[3]
        if not (is_k(start) and kv(start) == 0): return False if is_k(start) else None
        if is_t(src) and src[1] in ("set", "oset"): return False
        ok = None
        for it in expand(eng, p.st, src):
            if it.kind == "skip" or any(eng.loops[L].uniq for L, _ in it.chain): return False
            if it.kind != "one" or len(it.chain) != 1: return None
            L = it.chain[0][0]
            if dom_of(eng, L) != R: return None
            if it.val != T("item", T("item", R, idx(L)), name): return False
            ok = True
        return ok
    if is_k(v) or is_t(v, "len") or is_t(v, "extremum"): return False
    return None


def one_each(p, d, R):
    """d: a list with exactly one element for each solution in R"""
    if not is_t(d, "list"): return False
    xs = expand(p.eng, p.st, d)
    return bool(xs) and all(x.kind == "one" and len(x.chain) == 1 and not p.eng.loops[x.chain[0][0]].uniq and dom_of(p.eng, x.chain[0][0]) == R for x in xs)


def none_each(p, d, R):
    """the same list on a path where it is empty: the loop over R had no turns"""
    if not is_t(d, "list") or len(d) != 3 or d[2][0] != "acc": return False
    L = d[2][1]; obj = d[2][2]; lp = p.eng.loops.get(L)
    return lp is not None and dom_of(p.eng, L) == R and not lp.uniq and p.st.loops.get(L, ("all", None))[0] == "all" and bool(lp.alts) and all(len(a.emits.get(obj, ())) == 1 for a in lp.alts)


def nonempty(p, R):
    """are there solutions? True/False/None"""
    ne = p.dec(("truthy", R))
    if ne is not None: return ne
    for a, t in p.facts.items():
        d = a[1] if a[0] == "truthy" else None
        if d is not None and is_t(d, "list") and (one_each(p, d, R) or not t and none_each(p, d, R)): return t
        if a[0] == "isnone" and is_t(a[1], "phi") and set_by_any(p, a[1], R): return not t
    return None


def set_by_any(p, v, R):
    """v starts as None and is something of a solution as soon as there is one"""
    lp = p.eng.loops[v[2]]; elem = T("item", R, idx(v[2]))
    if dom_of(p.eng, v[2]) != R or p.st.loops.get(v[2], ("all", None))[0] != "all" or lp.phi_init.get(v[3]) != NONE: return False
    for a in lp.alts:
        n = a.next.get(v[3], v)
        if n == v and (a.facts.get(("isnone", v)) is False or a.facts.get(("truthy", v)) is True): continue
        if n != elem and not (is_t(n, "item") and n[2] == elem): return False
    return True


def factors(v):
    """(numerator factors, denominator factors, exact)"""
    if is_t(v, "bin") and v[2] == "*":
        a, b, x = factors(v[3]); d, e, y = factors(v[4]); return a + d, b + e, x and y
    if is_t(v, "bin") and v[2] == "/":
        a, b, x = factors(v[3]); d, e, y = factors(v[4]); return a + e, b + d, x and y
    if is_t(v, "bin") and v[2] == "//": return [v], [], False
    if is_t(v, "call") and v[2] in ("round", "int", "str", "abs", "math.floor", "math.ceil"): return [v], [], False
    if is_t(v) and v[1] in ("round", "int", "abs", "str"): return [v], [], False
    return [v], [], True


@spec("B06", least=6)
def B06(c):
    tab = relation_table(c, CORE)
    def single(p, pred, f, empty_ok):
        its, shape = rows(p)
        if shape == "one":
            t = terms(its[0].val, WIDTH[pred])
            return t
        if shape in ("several", "many"): c.on_path(f"B06.{pred}.one-row", p, False, f"{pred} gives more than one row", f)
        return None
    for pred, body in (("count", 1), ("sum", 2), ("avg", 2)):
        e, f, ps = run_handler(c, CORE, pred, table=tab)
        for p in ps:
            if p.raises:
                if p.v[3] == "explicit": c.on_path(f"B06.{pred}", p, None, "raises", f)
                continue
            R = the_result(p, V(body))
            if R is None: c.on_path(f"B06.{pred}", p, False if not solve_events(p) else None, f"{pred} does not solve its body", f); continue
            its, shape = rows(p)
            ne = nonempty(p, R)
            if shape == "none":
                c.on_path(f"B06.{pred}.empty", p, (ne is False) if pred == "avg" else False, f"{pred} has no result although it is defined", f); continue
            t = single(p, pred, f, False)
            if t is None: c.on_path(f"B06.{pred}", p, None, "rows not understood", f); continue
            v = t[0]
            if pred == "count":
                ok = True if v == T("len", R) or (ne is False and v == K(0)) else False if (is_k(v) or is_t(v, "bin") or (is_t(v, "len") and not contains(v, T("unk"))) ) else None
                if is_t(v, "len") and v[2] != R:
                    d = v[2]
                    ok = False if is_t(d) and d[1] in ("set", "oset", "dict", "slice") else None
                    if is_t(d, "list"):
                        xs = expand(p.eng, p.st, d)
                        ok = False if any(p.eng.loops[L].uniq for x in xs for L, _ in x.chain) else True if xs and all(x.kind == "one" and len(x.chain) == 1 and dom_of(p.eng, x.chain[0][0]) == R for x in xs) else False if any(x.kind == "skip" for x in xs) else None
                if is_t(v, "phi"): ok = counted(p, v, R)
                c.on_path("B06.count", p, ok, "count is not the number of solutions", f)
            elif pred == "sum":
                ok = total_of(p, v, R, ARGN(1))
                if ne is False and is_k(v) and kv(v) == 0: ok = True
                c.on_path("B06.sum", p, ok, "sum is not the total of the element values over all solutions", f)
            else:
                c.on_path("B06.avg.defined", p, ne is True, "avg divides although there may be no solutions", f)
                num, den, exact = factors(v)
                if len(num) == 1 and len(den) == 1:
                    dn = den[0]
                    okd = True if dn == T("len", R) or is_t(dn, "len") and one_each(p, dn[2], R) else counted(p, dn, R) if is_t(dn, "phi") else False if is_k(dn) or is_t(dn, "bin") or is_t(dn, "len") else None
                    okn = total_of(p, num[0], R, ARGN(1))
                    c.on_path("B06.avg", p, False if False in (okd, okn) else True if okd and okn else None, "avg is not the total divided by the number of solutions", f)
                else: c.on_path("B06.avg", p, False if not exact or is_t(v, "phi") or is_t(v, "sum") else None, "avg is not the total divided by the number of solutions", f)
            c.on_path(f"B06.{pred}.row", p, all(is_open(x, i) for i, x in enumerate(t) if i > 0), f"{pred} binds other arguments than its result", f)
    e, f, ps = run_handler(c, CORE, "percentage", table=tab)
    for p in ps:
        if p.raises: continue
        N, D = the_result(p, V(1)), the_result(p, V(2))
        its, shape = rows(p)
        if shape == "none":
            c.on_path("B06.percentage.empty", p, D is not None and nonempty(p, D) is False, "percentage has no result although there is something to divide by", f); continue
        if N is None or D is None: c.on_path("B06.percentage", p, False if len(solve_events(p)) < 2 else None, "percentage does not solve both bodies", f); continue
        t = single(p, "percentage", f, False)
        if t is None: c.on_path("B06.percentage", p, None, "rows not understood", f); continue
        c.on_path("B06.percentage.defined", p, nonempty(p, D) is True, "percentage divides although there may be nothing to divide by", f)
        num, den, exact = factors(t[0])
        k = 1.0
        for x in [x for x in num if is_k(x)]: k *= kv(x)
        for x in [x for x in den if is_k(x)]: k /= (kv(x) or 1)
        n2, d2 = [x for x in num if not is_k(x)], [x for x in den if not is_k(x)]
        if exact and n2 == [T("len", N)] and d2 == [T("len", D)]: ok = abs(k - 100) < 1e-9
        elif not exact or all(is_t(x, "len") and x[2] in (N, D) for x in n2 + d2): ok = False
        else: ok = None
        if is_k(t[0]) and p.dec(("truthy", N)) is False and kv(t[0]) == 0: ok = True
        c.on_path("B06.percentage", p, ok, "percentage is not 100 times the number of nominator solutions over the number of denominator solutions", f)


def counted(p, v, R):
    """a loop-carried counter that counts the elements of R"""
    lp = p.eng.loops[v[2]]
    if dom_of(p.eng, v[2]) != R: return None
    if p.st.loops.get(v[2], ("all", None))[0] != "all" or lp.uniq: return False
    init = lp.phi_init.get(v[3])
    if not is_k(init): return None
    if kv(init) != 0: return False
    for a in lp.alts:
        if a.next.get(v[3], v) != T("bin", "+", v, K(1)): return False
    return True


# ---------------------------------------------------------------- B07
@spec("B07", least=4)
def B07(c):
    tab = relation_table(c, CORE)
    for pred, mn in (("arg_min", True), ("arg_max", False)):
        e, f, ps = run_handler(c, CORE, pred, table=tab)
        for p in ps:
            if p.raises: continue
            R = the_result(p, V(2))
            if R is None: c.on_path(f"B07.{pred}", p, False if not solve_events(p) else None, f"{pred} does not solve its body", f); continue
            ne = nonempty(p, R); its, shape = rows(p)
            if shape == "none": c.on_path(f"B07.{pred}.empty", p, ne is False, f"{pred} has no result although its body has solutions", f); continue
            if shape != "one": c.on_path(f"B07.{pred}.one-row", p, False if shape else None, f"{pred} does not return one row", f); continue
            if ne is not True:
                c.on_path(f"B07.{pred}.empty", p, False, f"{pred} returns a row although its body may have no solutions", f)
            t = terms(its[0].val, 3)
            if t is None: c.on_path(f"B07.{pred}", p, None, "row not understood", f); continue
            ok, why = extreme(p, R, t[0], t[1], mn)
            c.on_path(f"B07.{pred}", p, ok, f"{pred}: {why}", f)


def extreme(p, R, ent, val, mn):
    eng = p.eng; n0, n1 = ARGN(0), ARGN(1)
    phis = {x for x in (ent, val) if is_t(x, "phi")} | {x[2] for x in (ent, val) if is_t(x, "item") and is_t(x[2], "phi")}
    if len(phis) and all(is_t(x, "phi") for x in phis):
        Ls = {x[2] for x in phis}
        if len(Ls) != 1: return None, "loops not understood"
        L = Ls.pop(); lp = eng.loops[L]
        if dom_of(eng, L) != R:
            d = dom_of(eng, L)
            if strip_seq(d) == (R, "reversed"):
                for i, a in enumerate(lp.alts):
                    st = fstate(a.facts); nv = a.next.get(val[3], val) if is_t(val, "phi") else None
                    elem = el(eng, d, L); cur = T("item", elem, n1)
                    if nv == cur and eng.decide(st, ("lt", cur, val) if mn else ("lt", val, cur)) is True: return False, "solutions are taken in reversed order: a later solution wins a tie"
                return None, "solutions are taken in reversed order"
            if not (is_t(d, "slice") and d[2] == R and d[3] == K(1)): return (False, "not all solutions are considered") if is_t(d, "slice") and d[2] == R else (None, "domain not understood")
        if lp.dom != dom_of(eng, L): return (False, "solutions are taken in another order, so a tie is not won by the earliest") if is_t(lp.dom, "reversed") else (None, "order")
        if p.st.loops.get(L, ("all", None))[0] != "all": return False, "not all solutions are considered"
        elem = el(eng, dom_of(eng, L), L)
        cur, cent = T("item", elem, n1), T("item", elem, n0)
        def after(x, a):
            if is_t(x, "phi"): return a.next.get(x[3], x)
            if is_t(x, "item"):
                b = a.next.get(x[2][3], x[2])
                return T("item", b, x[3])
            return x
        def initial(x):
            if is_t(x, "phi"): return lp.phi_init.get(x[3])
            b = lp.phi_init.get(x[2][3]); return b if b == NONE else T("item", b, x[3])
        if is_t(val, "item") and val[3] != n1 or is_t(ent, "item") and ent[3] != n0: return False, "the values are taken from other variables"
        iv, ie = initial(val), initial(ent)
        first = T("item", R, K(0))
        at_first = iv == T("item", first, n1) and ie == T("item", first, n0)
        if iv == NONE and is_t(dom_of(eng, L), "slice"): return False, "not all solutions are considered: the first is skipped"
        okinit = iv == NONE or at_first
        if not okinit:
            if iv is not None and (is_k(iv) and not (kv(iv) in (float("inf"), float("-inf")))): return False, "the search starts with a fixed value"
            return None, "start of the search not understood"
        nonecheck = [val] + [x[2] for x in (val,) if is_t(x, "item")]
        for i, a in enumerate(lp.alts):
            nv, nen = after(val, a), after(ent, a)
            upd = nv == cur
            if nv != cur and nv != val: return (False, "the kept value is not the value of a solution") if is_t(nv, "item") else (None, "update not understood")
            if upd and nen != cent: return False, "the entity is not taken from the solution of the extreme value"
            if not upd and nen != ent: return False, "the entity is changed without the value"
            st = fstate(a.facts)
            less = ("lt", cur, val) if mn else ("lt", val, cur)
            isn = any(eng.decide(st, ("isnone", x)) is True for x in nonecheck) or any(k[0] == "isnone" and t and k[1] in (ent,) for k, t in a.facts.items())
            falsy = any(k[0] == "truthy" and not t and k[1] in (val,) for k, t in a.facts.items())
            if upd:
                if isn: continue
                if falsy: return False, "an extreme value that counts as false is forgotten"
                if eng.decide(st, less) is True: continue
                if eng.decide(st, ("lt",) + (less[2], less[1])) is False: return False, "a later solution wins a tie"
                return False, "a solution is kept although its value is not more extreme"
            else:
                if isn: return False, "the first solution is not kept"
                if eng.decide(st, less) is False: continue
                return False, "a more extreme solution is not kept"
        return True, ""
    # min()/max()/sorted
    def base_of(x, n): return x[2] if is_t(x, "item") and x[3] == n else None
    b0, b1 = base_of(ent, n0), base_of(val, n1)
    if b0 is not None and b0 == b1:
        key = T("item", T("param", "$e"), n1)
        if is_t(b0, "extremum"):
            if b0[2] != ("min" if mn else "max"): return False, "the wrong extreme is taken"
            if b0[3] == R and b0[4] == key: return True, ""
            return None, "extremum not understood"
        if is_t(b0, "item") and is_t(b0[2], "sorted") and b0[2][2] == R and b0[2][3] == key and is_k(b0[2][4]):
            rev = bool(kv(b0[2][4])); k = b0[3]
            if k == K(0): return (rev != mn), "the wrong extreme is taken"
            if k == K(-1): return False, "a later solution wins a tie, or the wrong extreme is taken"
        if b0 == T("item", R, K(0)) and p.dec(norm_eq(K(1), T("len", R))) is not True: return False, "the first solution is taken without comparing"
        return None, "selection not understood"
    if b0 is not None and b1 is not None and b0 != b1: return False, "entity and value come from different solutions"
    return None, "selection not understood"


# ---------------------------------------------------------------- B08
def check_collect(c, pred, p, lst, R, f):
    """lst must hold the distinct values of variable(s) V(0) over all solutions R, in order"""
    eng = p.eng; key = f"B08.{pred}"
    base = lst
    if not is_t(base, "list"): c.on_path(key, p, None, "the result list is not understood", f); return
    its = expand(eng, p.st, base)
    if not its:
        c.on_path(key, p, False if p.dec(("truthy", R)) is not False and not p.imprecise and not any(True for _ in p.st.loops) else True, "no values are collected", f); return
    for it in its:
        if not it.chain or it.kind in ("unknown", "setat") or it.kind == "spread": c.on_path(key, p, None, "the result list is not understood", f); continue
        L = it.chain[0][0]
        if dom_of(eng, L) != R: c.on_path(key, p, False if is_t(dom_of(eng, L), "slice") and dom_of(eng, L)[2] == R else None, "not all solutions are used", f); continue
        c.on_path(key + ".order", p, True if eng.loops[L].dom == R else False if is_t(eng.loops[L].dom, "reversed") else None, "solutions are taken in another order", f)
        c.on_path(key + ".all", p, p.st.loops.get(L, ("all", None))[0] == "all", "not all solutions are used", f)
        sol = T("item", R, idx(L))
        st = fstate(it.facts)
        isl = eng.decide(st, ("isinst", V(0), "list"))
        own = {a: t for a, t in it.alt.facts.items()}
        inacc = [(a, t) for a, t in own.items() if a[0] == "in" and f"('acc', {L}," in repr(a[2])]
        insol = [(a, t) for a, t in own.items() if a[0] == "in" and a[2] == sol]
        if it.kind == "skip":
            if any(t for a, t in inacc): c.on_path(key + ".dups", p, True, "", f)
            elif isl is False and any(not t for a, t in insol): c.on_path(key + ".unbound", p, True, "", f)
            else: c.on_path(key + ".skip", p, False, "a value of a solution is left out", f)
            continue
        if isl is False or isl is None and it.val == T("item", sol, V(0)):
            ok = it.val == T("item", sol, V(0))
            c.on_path(key + ".value", p, True if ok else False if is_t(it.val, "item") else None, "another value than that of the named variable is collected", f)
        else:
            good = None
            if is_t(it.val, "list") or is_t(it.val, "tupof"):
                sub = expand(eng, fstate(it.facts, it.loops), it.val)
                good = True
                for x in sub:
                    if x.kind == "skip": good = False; break
                    if x.kind != "one" or len(x.chain) != 1: good = None; break
                    L2 = x.chain[0][0]
                    if dom_of(eng, L2) != V(0): good = None; break
                    n = el(eng, V(0), L2)
                    if x.val == T("item", sol, n) or call_named(x.val, "get") and x.val[4][:1] == (n,): continue
                    if x.val == NONE and eng.decide(fstate(x.facts), ("in", n, sol)) is False: continue
                    good = False; break
            c.on_path(key + ".combination", p, good, "a combination does not hold the values of the named variables in order", f)
        c.on_path(key + ".distinct", p, True if any(not t for a, t in inacc) else False, "a value can be collected twice", f)


@spec("B08", least=6)
def B08(c):
    tab = relation_table(c, CORE)
    e, f, ps = run_handler(c, CORE, "find_all", table=tab)
    for p in ps:
        if p.raises: continue
        R = the_result(p, V(1))
        if R is None: c.on_path("B08.find_all", p, False if not solve_events(p) else None, "find_all does not solve its body", f); continue
        its, shape = rows(p)
        if shape != "one": c.on_path("B08.find_all.one-row", p, False if shape else None, "find_all does not return one row", f); continue
        t = terms(its[0].val, 3)
        if t is None or len(t) != 3: c.on_path("B08.find_all", p, None, "row not understood", f); continue
        c.on_path("B08.find_all.row", p, is_open(t[0], 0) and is_open(t[1], 1), "find_all binds other arguments", f)
        check_collect(c, "find_all", p, t[2], R, f)
    e, f, ps = run_handler(c, CORE, "find_one", table=tab)
    for p in ps:
        if p.raises: continue
        R = the_result(p, V(1))
        if R is None: c.on_path("B08.find_one", p, False if not solve_events(p) else None, "find_one does not solve its body", f); continue
        its, shape = rows(p)
        if shape == "none":
            lists = [a for a, tr in p.facts.items() if a[0] == "truthy" and not tr and (is_t(a[1], "list") or a[1] == R)]
            c.on_path("B08.find_one.empty", p, True if lists else None, "find_one fails although there is a value", f); continue
        if shape != "one": c.on_path("B08.find_one.one-row", p, False if shape else None, "find_one does not return one row", f); continue
        t = terms(its[0].val, 3)
        if t is None or len(t) != 3: c.on_path("B08.find_one", p, None, "row not understood", f); continue
        c.on_path("B08.find_one.row", p, is_open(t[0], 0) and is_open(t[1], 1), "find_one binds other arguments", f)
        v = t[2]
        if is_t(v, "item") and is_t(v[2], "list"):
            c.on_path("B08.find_one.first", p, v[3] == K(0) if is_k(v[3]) else None, "find_one does not return the first value", f)
            c.on_path("B08.find_one.has", p, p.dec(("truthy", v[2])) is True, "find_one returns a value although there may be none", f)
            check_collect(c, "find_one", p, v[2], R, f)
        else: c.on_path("B08.find_one.first", p, False if is_k(v) or is_t(v, "extremum") or is_t(v, "item") and is_t(v[2], "sorted") else None, "find_one does not return the first value", f)


# ---------------------------------------------------------------- B09
@spec("B09", least=3)
def B09(c):
    e, f, ps = run_handler(c, CORE, "store", opaque={"bind_variables"})
    n = 0
    for p in ps:
        w = p.calls("write_atom")
        isl = p.dec(("isinst", V(0), "list"))
        if p.raises:
            c.on_path("B09.nothing-written", p, not w, "store writes atoms before it raises an error", f)
            if p.v[3] == "explicit": c.on_path("B09.accepts", p, True if isl is False else None if isl is None else False, "store refuses a list of atoms", f)
            continue
        done_once(c, "B09.succeeds", p, 1, "store", f)
        if isl is not True:
            c.on_path("B09.list", p, False, "store accepts something that is not a list", f); continue
        if not w:
            c.on_path("B09.writes", p, False if p.dec(("truthy", V(0))) is not False else True, "store writes nothing", f); continue
        seen = {}
        for ev, ch, facts in w:
            n += 1
            if len(ch) != 1: c.on_path("B09.each", p, None if ch else False, "store does not write each atom", f); continue
            L, i = ch[0]
            bound_all = None
            d = dom_of(p.eng, L)
            whole = is_t(d, "call") and V(0) in d[4] and BIND in d[4]
            if d != V(0) and not whole: c.on_path("B09.each", p, False if is_t(d) and (contains(d, V(0)) or contains(d, BIND)) and d[1] in ("slice", "set", "oset", "sorted", "reversed") else None, "store does not write each atom", f); continue
            c.on_path("B09.order", p, True if p.eng.loops[L].dom == d else False if is_t(p.eng.loops[L].dom, "reversed") else None, "atoms are not written in the given order", f)
            c.on_path("B09.all", p, p.st.loops.get(L, ("all", None))[0] == "all", "not every atom is written", f)
            a = ev.args[0]; elem = el(p.eng, d, L)
            if whole: ok = a == elem
            elif is_t(a, "call"): ok = True if elem in a[4] and BIND in a[4] else False if elem in a[4] else None
            else: ok = False if a == elem else None
            c.on_path("B09.bound", p, ok, "an atom is written without its variables being replaced by their values", f)
            seen.setdefault((L, i), 0); seen[(L, i)] += 1
        for (L, i), k in seen.items():
            c.on_path("B09.once", p, k == 1, "an atom is written more than once", f)
            al = p.st.loops.get(L, ("all", None))[1]
            for j in range(len(p.eng.loops[L].alts)):
                if (al is None or j in al) and (L, j) not in seen: c.on_path("B09.skips", p, False, "an atom is not written", f)
        if len({L for L, i in seen}) > 1: c.on_path("B09.once", p, False, "the atoms are written more than once", f)
    from .specs_cross import bind_
    c.guard("B09.bind", "bind_variables", bind_, c, "B09")
    c.ob("B09.found", True if n else False if all(not p.imprecise for p in ps) else None, c.where(f), "store writes atoms")


# ---------------------------------------------------------------- B10
def width_of(p, v, it):
    """symbolic width of a row: (constant, {dom: count}) or None"""
    eng = p.eng
    if v == param("values"): return 0, {("args",): 1}
    if v[0] == "tup": return len(v) - 1, {}
    if is_t(v, "repeat") and is_t(v[2], "list"):
        w = width_of(p, v[2], it)
        if w is None or w[1]: return None
        if is_k(v[3]): return w[0] * kv(v[3]), {}
        b = v[3]; k = 0
        if is_t(b, "bin") and b[2] in "+-" and is_k(b[4]): k = kv(b[4]) if b[2] == "+" else -kv(b[4]); b = b[3]
        return w[0] * k, {length_key(eng, b): w[0]}
    if not is_t(v, "list"): return None
    n = 0; d = {}
    for s in v[2:]:
        if s[0] == "one": n += 1
        elif s[0] == "spread":
            w = width_of(p, s[1], it)
            if w is None: return None
            n += w[0]
            for k, x in w[1].items(): d[k] = d.get(k, 0) + x
        elif s[0] == "acc":
            loops = {**p.st.loops, **(it.loops if it is not None else {})}
            lp = eng.loops[s[1]]; mode, al = loops.get(s[1], ("all", None))
            if mode != "all": return None
            ks = {sum(1 for g in a.emits.get(s[2], ()) if g[0] == "one") for i, a in enumerate(lp.alts) if al is None or i in al}
            if any(g[0] != "one" for i, a in enumerate(lp.alts) for g in a.emits.get(s[2], ())): return None
            if len(ks) != 1: return "varies"
            k = ks.pop()
            doms = [length_key(eng, T("len", q)) for q in lp.seqs] or [length_key(eng, T("len", lp.dom))]
            facts = {**p.facts, **(it.facts if it is not None else {})}
            dk = doms[0]
            for o in doms[1:]:
                same = o == dk or any(a[0] == "eq" and t and {length_key(eng, a[1]), length_key(eng, a[2])} == {o, dk} for a, t in facts.items())
                if not same: return "zip"
                if o[0] == "args" or o[0] == "argtail": dk = o
            d[dk] = d.get(dk, 0) + k
        else: return None
    return n, d


def length_key(eng, v):
    if is_t(v, "len"): v = v[2]
    if v in (ARGS, param("values")) or is_t(v, "attr") and v[3] == "arguments": return ("args",)
    if is_t(v, "slice") and (v[2] in (ARGS, param("values")) or is_t(v[2], "attr") and v[2][3] == "arguments") and v[4] == NONE and is_k(v[3]) and kv(v[3]) is not None: return ("argtail", kv(v[3]))
    return ("other", v)


def check_width(c, p, cname, pred, width, f):
    its, shape = rows(p)
    key = f"B10.{pred}"
    if shape is None and not its:
        c.on_path(key, p, False if is_k(p.v) else None, f"{pred} does not return a list of rows" if is_k(p.v) else f"the rows of {pred} are not understood", f); return
    for it in its:
        if it.kind != "one": c.on_path(key, p, None, f"the rows of {pred} are not understood", f); continue
        v = it.val
        if is_t(v, "unk"): c.on_path(key, p, None, "", f); continue
        w = width_of(p, v, it)
        if w == "varies": c.on_path(key, p, False, f"rows of {pred} have different widths", f); continue
        if w == "zip": c.on_path(key, p, False, f"a row of {pred} is cut off at the shorter of two lists", f); continue
        if w is None: c.on_path(key, p, None if v[0] != "k" and not is_t(v, "len") else False, f"a row of {pred} is not understood", f); continue
        n, d = w
        for k in list(d):
            if k[0] == "argtail": n -= k[1] * d[k]; d[("args",)] = d.get(("args",), 0) + d.pop(k)
        if not d: c.on_path(key, p, True if width is not None and n == width else None if width is None else False, f"a row of {pred} has {n} values, its atom has {width} arguments", f)
        elif d == {("args",): 1}: c.on_path(key, p, n == 0, f"a row of {pred} is not as wide as its atom", f)
        else: c.on_path(key, p, None, f"width of a row of {pred} not understood", f)


@spec("B10", least=25)
def B10(c):
    tab = relation_table(c, CORE, c.machine({"bind_variables"}))
    for pred in sorted(set(tab[3]) | set(WIDTH)):
        e, f, ps = run_handler(c, CORE, pred, table=tab, width=WIDTH.get(pred))
        for p in ps:
            if p.returns: check_width(c, p, CORE, pred, WIDTH.get(pred), f)
    for cname, widths in (("GrammarModule", {"learn_grammar_rule": 1}), ("BasicDialogContext", {"with_context": 2, "start_context": 1, "end_context": 1}), ("InferenceModule", {"learn_rule": 2})):
        tab = relation_table(c, cname, c.machine({"bind_variables", "parse_simple_rule", "insert_rule"}))
        for pred in widths:
            e, f, ps = run_handler(c, cname, pred, table=tab, width=widths[pred])
            for p in ps:
                if p.returns: check_width(c, p, cname, pred, widths[pred], f)
    # every module method that becomes a query function and builds constant rows
    f = c.prog.method("InferenceModule", "handle_rule")
    for p in c.method("InferenceModule", "handle_rule"):
        if p.returns: check_width(c, p, "InferenceModule", "handle_rule", None, f)


# ---------------------------------------------------------------- B11
BODIES = {"not": [0], "none": [0], "scoped": [0], "det_equals": [0], "det_greater_than": [0], "det_less_than": [0], "count": [1], "sum": [2], "avg": [2],
          "arg_min": [2], "arg_max": [2], "percentage": [1, 2], "find_all": [1], "find_one": [1]}


def drops_values(p, d):
    """d: a dict filled from the current binding; a variable is left out for its value, whatever its name"""
    for it in p.seq(d) or []:
        if it.kind != "skip" or not it.facts: continue
        keys = {x for a in it.facts for x in subterms(a) if is_t(x, "item", "el") and is_t(x[2], "call", "keys") or is_t(x, "item") and contains(x[2], BIND) and is_t(x[2], "keys")}
        byname = [a for a, t in it.facts.items() if a[0] in ("in", "eq") and any(x in keys for x in a[1:]) and (t or contains(a, V(1)) or contains(a, V(2)))]
        byvalue = [a for a in it.facts if any(is_t(x, "item") and x[2] == BIND for x in subterms(a))]
        if byvalue and not byname: return True
    return False


@spec("B11", least=20)
def B11(c):
    tab = relation_table(c, CORE)
    def one(cname, pred, bodies, tab):
        e, f, ps = run_handler(c, cname, pred, table=tab)
        for p in ps:
            evs = solve_events(p)
            for ev, ch, facts in evs:
                b = ev.args[0] if ev.args else None
                binding = ev.args[1] if len(ev.args) > 1 else ev.kwargs.get("binding")
                known = b in [V(i) for i in bodies]
                c.on_path(f"B11.{pred}.body", p, True if known else False if b is not None and (b == BIND or is_t(b, "item") or is_t(b, "list") or is_t(b, "slice") or is_k(b)) else None, f"{pred} solves something other than its body", f, ev.node.lineno if ev.node else None)
                c.on_path(f"B11.{pred}.binding", p, False if binding is None else True if strip_copy(binding) == BIND else False if is_t(binding, "dict") or binding == NONE or is_k(binding) or any(binding == V(i) for i in range(4)) else None, f"{pred} does not solve its body under the current binding", f, ev.node.lineno if ev.node else None)
            if p.returns:
                got = {ev.args[0] for ev, ch, facts in evs if ev.args and not ch}
                its, shape = rows(p)
                if shape in ("one", "several"):
                    for i in bodies: c.on_path(f"B11.{pred}.solved", p, True if V(i) in got else False if not evs else None, f"{pred} returns rows without solving its body", f)
    for pred, b in BODIES.items(): one(CORE, pred, b, tab)
    one("BasicDialogContext", "with_context", [1], relation_table(c, "BasicDialogContext"))
    # all: the body under the current binding plus the quantified variable
    e, f, ps = run_handler(c, CORE, "all", table=tab)
    for p in ps:
        seen = set()
        for ev, ch, facts in solve_events(p):
            b = ev.args[0]; binding = ev.args[1] if len(ev.args) > 1 else ev.kwargs.get("binding")
            if b == V(1) and not ch:
                c.on_path("B11.all.range", p, binding is not None and strip_copy(binding) == BIND, "the range is not solved under the current binding", f); seen.add(1)
            elif b == V(2):
                seen.add(2)
                if binding is None or not is_t(binding, "dict"): c.on_path("B11.all.body", p, False if binding is None or strip_copy(binding) == BIND else None, "the body is not solved with the quantified variable bound", f); continue
                segs = binding[2:]
                base = [i for i, s in enumerate(segs) if s == ("update", BIND)]
                put = [i for i, s in enumerate(segs) if s[0] == "put" and s[1] == ARGN(0)]
                others = [s for s in segs if s[0] == "put" and s[1] != ARGN(0)]
                ok = bool(base) and bool(put) and put[-1] > base[-1] and not others
                if any(s[0] not in ("update", "put") for s in segs): ok = False if drops_values(p, binding) else None
                c.on_path("B11.all.body", p, ok, "the body is not solved under the current binding extended with the quantified variable", f)
            else: c.on_path("B11.all.other", p, False if is_t(b, "item") or is_k(b) else None, "all solves something other than its range and body", f)
        if p.returns and solve_events(p): c.on_path("B11.all.solved", p, True if 1 in seen else False, "all does not solve its range", f)


# ---------------------------------------------------------------- B05
@spec("B05", least=5)
def B05(c):
    e, f, ps = run_handler(c, CORE, "all")
    n = 0
    for p in ps:
        if p.raises: continue
        R = the_result(p, V(1)); eng = p.eng
        if R is None: c.on_path("B05.range", p, False if not solve_events(p) else None, "all does not solve its range", f); continue
        bodies = [(ev, ch, facts) for ev, ch, facts in solve_events(p) if ev.args and ev.args[0] == V(2)]
        its, shape = rows(p)
        Ls = {ch[-1][0] for ev, ch, facts in bodies if len(ch) == 1}
        if not bodies:
            empty = p.dec(("truthy", R)) is False
            c.on_path("B05.body", p, True if empty else None if p.imprecise or any(True for x in p.st.trace if x.kind == "loop") and shape != "many" else False, "all does not solve its body", f); continue
        if any(len(ch) != 1 for ev, ch, facts in bodies): c.on_path("B05.body", p, None, "the body is solved in a way that is not understood", f); continue
        for ev, ch, facts in bodies:
            L = ch[0][0]; lp = eng.loops[L]
            if dom_of(eng, L) != R: c.on_path("B05.range-loop", p, False if contains(dom_of(eng, L), R) and is_t(dom_of(eng, L), "slice") else None, "the body is not solved for every entity of the range", f); continue
            n += 1
            ent = T("item", T("item", R, idx(L)), ARGN(0))
            b = ev.args[1] if len(ev.args) > 1 else NONE
            put = [s for s in b[2:] if s[0] == "put"] if is_t(b, "dict") else []
            c.on_path("B05.entity", p, True if any(s[1] == ARGN(0) and s[2] == ent for s in put) else False if put and all(s[2][0] != "t" or is_t(s[2], "item") for s in put) else None, "the quantified variable is not bound to the entity of the range", f)
            distinct = lp.uniq or any(a[0] == "in" and a[1] == ent for a in {**lp.alts[ch[0][1]].facts}) if ch[0][1] < len(lp.alts) else lp.uniq
            c.on_path("B05.distinct", p, True if distinct else False, "the body is solved more than once for the same entity, or the entity is returned more than once", f)
        # when does it succeed?
        L = sorted(Ls)[0] if Ls else None
        if shape == "none":
            # failing needs an entity without solutions
            ne = [1 for a, t in p.facts.items() if a[0] == "eq" and not t and all(is_t(x, "len") for x in a[1:])]
            ok = True if ne else None
            for Lx in Ls:
                lp = eng.loops[Lx]
                body = lambda fs: [t for a, t in fs.items() if a[0] == "truthy" and call_named(a[1], "solve") and V(2) in a[1][4]]
                if any(False in body({a: t}) and contains(a, idx(Lx)) for a, t in p.facts.items() if a[0] == "truthy"): ok = True
                for L2, al in p.st.exists:
                    if L2 == Lx and all(False in body(lp.alts[i].facts) for i in al): ok = True
                    if L2 == Lx and any(True in body(lp.alts[i].facts) for i in al): ok = False
                mode, al = p.st.loops.get(Lx, ("all", None))
                # every allowed alternative succeeds, yet it fails
                if mode == "all" and not ne and ok is None and all(True in body(a.facts) for i, a in enumerate(lp.alts) if al is None or i in al) and p.dec(("truthy", R)) is True: ok = False
            lts = [1 for a, t in p.facts.items() if a[0] == "lt" and all(is_t(x, "len") for x in a[1:])]
            if ok is None and lts: ok = True
            c.on_path("B05.fails", p, ok, "all fails although every entity of the range may satisfy the body", f)
            continue
        if is_t(p.v, "slice"): c.on_path("B05.rows", p, False, "all does not return every entity of the range", f); continue
        if shape is None: c.on_path("B05.rows", p, None, "rows not understood", f); continue
        if shape in ("one", "several"): c.on_path("B05.rows", p, False, "all does not return the entities of the range", f); continue
        c.on_path("B05.succeeds", p, all_satisfied(p, R, Ls), "all succeeds although an entity of the range may not satisfy the body", f)
        for it in its:
            t = terms(it.val, 3); L = it.chain[0][0]
            b, how = strip_seq(dom_of(eng, L))
            if is_t(b, "oset", "list", "set", "tupof") and len(b) == 3 and b[2][0] == "acc" and b[2][1] in eng.loops and strip_seq(dom_of(eng, b[2][1])) == (R, "all"): b = R
            if t is not None and len(it.chain) == 1 and b == R and how in ("reversed", "part"): c.on_path("B05.row", p, False, "the entities are not returned in range order, or not all of them", f); continue
            if t is None or len(it.chain) != 1 or dom_of(eng, L) != R: c.on_path("B05.row", p, None, "row not understood", f); continue
            ent = T("item", T("item", R, idx(L)), ARGN(0))
            c.on_path("B05.row", p, t[0] == ent and all(is_open(x, i) for i, x in enumerate(t) if i), "a row does not hold the entity", f)
            c.on_path("B05.row-once", p, True if eng.loops[L].uniq or any(a[0] == "in" and a[1] == ent and not tr for a, tr in it.facts.items()) else False, "an entity is returned more than once", f)
            c.on_path("B05.row-order", p, True if eng.loops[L].dom == R else False if is_t(eng.loops[L].dom, "reversed") else None, "entities are not in range order", f)
    from .specs_cross import ordered_set
    c.guard("B05.ordered-set", "OrderedSet", ordered_set, c, "B05")
    c.ob("B05.found", True if n else None, c.where(f), "all solves its body for the entities of its range")


def same_range(X): return call_named(X, "solve") and tuple(X[4][:2]) == (V(1), BIND)


def all_satisfied(p, R, Ls):
    eng = p.eng
    body = lambda fs: [t for a, t in fs.items() if a[0] == "truthy" and call_named(a[1], "solve") and V(2) in a[1][4]]
    for a, t in p.facts.items():
        if a[0] == "eq" and t and is_t(a[1], "len") and is_t(a[2], "len"):
            X, Y = a[1][2], a[2][2]
            def desc(X):
                if X == R or call_named(X, "solve") and tuple(X[4][:2]) == (V(1), BIND): return "range-list"
                if not (is_t(X) and X[1] in ("list", "set", "oset", "dict")): return None
                its = expand(eng, p.st, X)
                kind = "distinct" if X[1] != "list" else None
                full = succ = True
                for it in its:
                    if it.kind in ("unknown", "setat") or it.kind == "spread" or len(it.chain) != 1 or not (dom_of(eng, it.chain[0][0]) == R or same_range(dom_of(eng, it.chain[0][0]))): return None
                    if kind is None: kind = "distinct" if eng.loops[it.chain[0][0]].uniq else "list"
                    b = body(it.facts)
                    if it.kind == "skip":
                        full = False
                        if True in b or not b: succ = False
                    else:
                        if False in b or not b: succ = False
                return ("range-" if full else "good-" if succ else "odd-") + (kind or "distinct")
            dx, dy = desc(X), desc(Y)
            if None in (dx, dy): return None
            if {dx, dy} == {"range-distinct", "good-distinct"} or {dx, dy} == {"range-list", "good-list"}: return True
            return False
    for L in Ls:
        lp = eng.loops[L]; mode, al = p.st.loops.get(L, ("all", None))
        vals = [body(a.facts) for i, a in enumerate(lp.alts) if al is None or i in al]
        if mode == "all" and vals and all(True in v for v in vals): return True
    lts = [a for a in p.facts if a[0] == "lt" and all(is_t(x, "len") for x in a[1:])]
    if lts: return None
    return False


# ---------------------------------------------------------------- B12
@spec("B12", least=5)
def B12(c):
    tab = relation_table(c, CORE, c.machine({"bind_variables"}))
    e, f, ps = run_handler(c, CORE, "multiply", table=tab)
    for p in ps:
        if p.raises: continue
        its, shape = rows(p)
        if shape != "one": c.on_path("B12.multiply", p, False if shape else None, "multiply does not return one row", f); continue
        t = terms(its[0].val, 3)
        if t is None: c.on_path("B12.multiply", p, None, "row not understood", f); continue
        num, den, exact = factors(t[2]) if len(t) > 2 else ([], [], True)
        ok = sorted(map(repr, num)) == sorted(map(repr, [V(0), V(1)])) and not den
        c.on_path("B12.multiply", p, True if ok else False if is_t(t[2], "bin") or is_t(t[2], "item") or is_k(t[2]) or not exact else None, "multiply does not bind its third argument to the product of the first two", f)
        c.on_path("B12.multiply.row", p, is_open(t[0], 0) and is_open(t[1], 1), "multiply does not leave its operands open", f)
    e, f, ps = run_handler(c, CORE, "destructure", table=tab)
    n = 0
    tail = T("slice", ARGS, K(1), NONE, NONE)
    for p in ps:
        if p.raises: continue
        its, shape = rows(p); eng = p.eng
        if shape is None: c.on_path("B12.destructure", p, None, "rows not understood", f); continue
        for it in its:
            v = it.val
            segs = v[2:] if is_t(v, "list") else None
            if segs is None: c.on_path("B12.destructure", p, None, "row not understood", f); continue
            if all(s[0] == "one" and s[1] == NONE or s[0] == "spread" and is_t(s[1], "repeat") and s[1][2] == T("list", ("one", NONE)) for s in segs):
                c.on_path("B12.destructure.fail", p, destr_fail(p, f), "destructure fails although the atom matches", f); continue
            accs = [s for s in segs if s[0] == "acc"]
            if len(accs) != 1 or any(s[0] == "spread" for s in segs): c.on_path("B12.destructure", p, None, "row not understood", f); continue
            n += 1
            L = accs[0][1]; lp = eng.loops[L]; mode, al = {**p.st.loops, **it.loops}.get(L, ("all", None))
            first = [s for s in segs if s[0] == "one"]
            c.on_path("B12.destructure.position", p, True if len(first) == 1 and segs[0] == first[0] and is_open(first[0][1], 0) else False, "the terms do not stand in the positions of the arguments", f)
            c.on_path("B12.destructure.all", p, mode == "all", "not all terms are compared", f)
            X = [q for q in lp.seqs if q != tail]
            okdom = tail in lp.seqs and len(X) == 1
            if not okdom: c.on_path("B12.destructure.terms", p, None, "the comparison of terms is not understood", f); continue
            X = X[0]
            leneq = p.dec(norm_eq(T("len", X), T("len", tail)))
            c.on_path("B12.destructure.length", p, leneq is True, "an atom of another length is destructured", f)
            s_j, a_j = el(eng, tail, L), el(eng, X, L)
            for i, a in enumerate(lp.alts):
                if al is not None and i not in al: continue
                em = a.emits.get(accs[0][2], ())
                if len(em) != 1 or em[0][0] != "one": c.on_path("B12.destructure.each", p, False, "a term is left out", f); continue
                st = fstate(a.facts)
                same = eng.decide(st, norm_eq(a_j, s_j)); var = [t for k, t in a.facts.items() if k[0] == "isinst" and k[1] == s_j]
                x = em[0][1]
                if same: ok = x in (a_j, s_j)
                elif True in var: ok = x == a_j
                else: ok = False
                c.on_path("B12.destructure.term", p, True if ok else False if x in (a_j, s_j) or is_t(x, "item") or is_k(x) else None, "a term is bound wrongly, or accepted although it differs", f)
    c.ob("B12.destructure.found", True if n else None, c.where(f), "destructure gives the terms of the atom")


def destr_fail(p, f):
    """an all-None row: lengths differ or a constant differs"""
    if any(a[0] == "eq" and not t and all(is_t(x, "len") for x in a[1:]) for a, t in p.facts.items()): return True
    if any(a[0] == "lt" and all(is_t(x, "len") for x in a[1:]) for a, t in p.facts.items()): return True
    diff = any(a[0] == "eq" and not t for a, t in p.facts.items()); nv = any(a[0] == "isinst" and not t and a[2].split(".")[-1] == "Variable" for a, t in p.facts.items())
    if diff and nv: return True
    if p.st.exists: return None
    return False
