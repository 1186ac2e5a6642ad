"""G01, G03, G04, G06-G09: grammar, chart parser, trees."""
from .spec import *
from .specs_parse import nc
from .specs_builtin import done_once

SELF = param("self")
TEXT = param("text")


def pn(f, *names, i=None):
    """parameter by name, or by position"""
    for n in names:
        if n in f.params: return param(n)
    return param(f.params[i]) if i is not None else None


# ---------------------------------------------------------------- G01
@spec("G01", least=12)
def G01(c):
    f = c.prog.method("EarleyParser", "parse")
    text = param(f.params[2]); n = 0
    for p in c.method("EarleyParser", "parse", opaque={"buildChart", "extract_tree_roots", "find_unknown_word"}):
        if p.raises: c.on_path("G01.raises", p, False if p.v[3] == "explicit" else None, "parsing raises an error instead of returning one", f); continue
        P, E, A = (new_field(p.v, x) for x in ("products", "error_type", "error_args"))
        if None in (P, E, A): c.on_path("G01.result", p, None, "result not understood", f); continue
        n += 1
        roots = next((x for x in subterms(P) if call_named(x, "extract_tree_roots")), None)
        if roots is None:
            empty = P == T("list")
            # no trees handed on: fine only when there are none
            rc = p.calls("extract_tree_roots")
            ok = None
            if empty and rc: ok = p.dec(("truthy", rc[0][0].result)) is False
            c.on_path("G01.trees", p, ok if ok is not None else (False if empty and not rc and E == K("") else None), "trees are dropped", f)
            if not rc: continue
            roots = rc[0][0].result
        else:
            b, how = strip_seq(P)
            c.on_path("G01.trees", p, True if b == roots and how == "all" else False if b == roots and how == "part" else None, "not all trees are returned", f)
        have = p.dec(("truthy", roots))
        if have is None:
            c.on_path("G01.error-iff", p, False, "whether there is an error does not depend on whether there are trees", f); continue
        if have:
            c.on_path("G01.error-iff", p, E == K("") if is_k(E) else None, "there are trees and still an error", f)
            c.on_path("G01.no-args", p, True if A == T("list") else None, "", f); continue
        c.on_path("G01.error-iff", p, kv(E) not in ("", None) if is_k(E) else None, "there are no trees and no error", f)
        if not is_k(E): continue
        un = [e.result for e, ch, fa in p.calls("find_unknown_word")]
        u = None
        if un:
            u = p.dec(norm_eq(un[0], K("")))
            if u is None and p.dec(("truthy", un[0])) is not None: u = not p.dec(("truthy", un[0]))
        t = p.dec(("truthy", text))
        if t is None:
            d = p.dec(norm_eq(text, K(""))); t = None if d is None else not d
        if kv(E) == "unknown_word":
            c.on_path("G01.unknown-word", p, u is False, "the unknown-word error is given without an unknown word", f)
            its = [i.val for i in p.seq(A)]
            c.on_path("G01.unknown-arg", p, bool(un) and its == [un[0]], "the unknown-word error does not have the unread text as its argument", f)
        elif kv(E) == "no_sentence":
            c.on_path("G01.no-sentence", p, None if t is None and u is None else t is False, "the no-sentence error is given for a text", f)
            c.on_path("G01.no-args", p, A == T("list") or None, "", f)
        elif kv(E) == "not_understood":
            c.on_path("G01.not-understood", p, u is True and t is True, "the not-understood error is given where another error applies", f)
            c.on_path("G01.no-args", p, A == T("list") or None, "", f)
        else: c.on_path("G01.kind", p, False, f"{E[2]!r} is not one of the errors of a parse", f)
    c.ob("G01.found", True if n >= 2 else None, c.where(f), "parse returns results")
    # chart of this text and grammar, trees of this chart
    for p in c.method("EarleyParser", "parse", opaque={"buildChart", "extract_tree_roots", "find_unknown_word"}):
        for e, ch, fa in p.calls("buildChart"):
            c.on_path("G01.input", p, e.args[-1] == text and param(f.params[1]) in e.args, "another text or grammar is parsed", f)
        for nm in ("extract_tree_roots", "find_unknown_word"):
            for e, ch, fa in p.calls(nm): c.on_path("G01.chart", p, call_named(e.args[0], "buildChart") or None, "trees or unknown word of another chart", f)
    unknown_word(c)
    processor(c)


def unknown_word(c):
    f = c.prog.function("find_unknown_word"); chart = param(f.params[0]); text = attr(chart, "text"); n = 0
    for p in c.function("find_unknown_word"):
        if p.raises: continue
        sl = next((x for x in subterms(p.v) if is_t(x, "slice") and x[2] == text), None)
        if sl is None:
            if p.v != K(""): c.on_path("G01.unread", p, None, "unknown word not understood", f); continue
            # nothing unread
            rest = any(a[0] == "lt" for a in p.facts)
            c.on_path("G01.read-all", p, None if not rest else True, "", f); continue
        n += 1
        lo = sl[3]
        in_text = p.cmp("lt", lo, T("len", text))
        c.on_path("G01.unread", p, True if in_text else False if in_text is False else None, "an unknown word is reported although all text was read", f)
        # the position after the last complete entry
        L, key, off = phi_plus(lo)
        if L is None: c.on_path("G01.unread-from", p, None, "start of the unread text not understood", f); continue
        ups = list(phi_updates(p, L, key, p.st.loops))
        seen = False
        for nx, facts, chain in ups:
            b, d = plus(nx)
            if not (is_t(b, "attr") and b[3] == "end_char_index"): continue
            seen = True
            c.on_path("G01.unread-from", p, d + off == 0, "the unread text does not start after the last complete entry", f)
            st = b[2]
            comp = complete_fact(p, facts, st)
            c.on_path("G01.unread-complete", p, comp, "an incomplete entry counts as read", f)
        if not seen: c.on_path("G01.unread-from", p, None, "start of the unread text not understood", f)
    c.ob("G01.unread-found", True if n else None, c.where(f), "unread text is reported")


def plus(v):
    d = 0
    while is_t(v, "bin") and v[2] == "+" and is_k(v[4]) and isinstance(kv(v[4]), int): d += kv(v[4]); v = v[3]
    return v, d


def phi_plus(v):
    b, d = plus(v)
    return (b[2], b[3], d) if is_t(b, "phi") else (None, None, 0)


def phi_updates(p, L, key, loops, seen=None):
    """values a loop variable can get, with the facts of that turn, nested loops included"""
    seen = seen if seen is not None else set()
    if (L, key) in seen: return
    seen.add((L, key))
    lp = p.eng.loops[L]; mode, al = loops.get(L, ("all", None))
    for i, a in enumerate(lp.alts):
        if al is not None and i not in al: continue
        for k, v in a.next.items():
            if k != key: continue
            if is_t(v, "phi") and v[2] == L: continue
            if is_t(v, "phi"): yield from phi_updates(p, v[2], v[3], a.loops, seen)
            else: yield v, a.facts, L


def complete_fact(p, facts, st):
    n = T("len", attr(st, "rule", "consequents")); d = attr(st, "dot_position")
    for a, t in facts.items():
        if a[0] == "truthy" and call_named(a[1], "is_complete") and a[1][3] == st: return t
    return Path(p.eng, fstate(facts), "return", NONE).cmp("gt", d, n)


def processor(c):
    f = c.prog.method("BasicParser", "process"); n = 0
    for p in c.method("BasicParser", "process", opaque={"parse", "sort_trees"}):
        if p.raises: c.on_path("G01.raises", p, False if p.v[3] == "explicit" else None, "the parser processor raises an error", f); continue
        P, E, A = (new_field(p.v, x) for x in ("products", "error_type", "error_args"))
        calls = p.calls("parse")
        if not calls: c.on_path("G01.processor", p, None, "", f); continue
        r = calls[0][0].result; n += 1
        if is_t(p.v, "call") and p.v == r: continue
        for v, fl in ((E, "error_type"), (A, "error_args")):
            if v is None: c.on_path("G01.pass-on", p, None, "", f); continue
            want = attr(r, fl)
            ok = v == want or is_t(v, "list") and strip_copy(v) == want
            if not ok and is_k(v):   # a constant on a path that knows the value
                ok = p.dec(norm_eq(want, v)) is True or v == K("") and p.dec(("truthy", want)) is False
            elif not ok and v == T("list"): ok = p.dec(("truthy", want)) is False or p.dec(norm_eq(attr(r, "error_type"), K(""))) is True or p.dec(("truthy", attr(r, "products"))) is True
            c.on_path("G01.pass-on", p, ok, f"the {fl} of the parse is not passed on", f)
        trees_passed(c, p, P, attr(r, "products"), f)
        a = calls[0][0].args
        c.on_path("G01.grammar", p, attr(SELF, "grammar") in a, "the sentence is not parsed with the processor's grammar", f)
        t = a[-1]
        req = attr(param(f.params[1]), "text")
        ok = t == req or is_t(t, "call") and contains(t, req) and (t[2] in ("re.sub", "sub", "strip", "join")) or is_t(t, "join") and contains(t, req)
        c.on_path("G01.request-text", p, True if ok else False if not contains(t, req) and not p.imprecise else None, "another text than the sentence is parsed", f)
    c.ob("G01.processor-found", True if n else None, c.where(f), "the parser processor analysed")


def trees_passed(c, p, P, src, f):
    """P: one product per tree of the (ranked) trees, in order"""
    if P is None: c.on_path("G01.products", p, None, "", f); return
    if P == T("list"):
        c.on_path("G01.products", p, True if p.dec(("truthy", src)) is False else False if not p.imprecise else None, "the trees are not passed on", f); return
    for it in p.seq(P):
        if not it.chain or len(it.chain) != 1: c.on_path("G01.products", p, None, "", f); continue
        L = it.chain[0][0]; b, how = strip_seq(dom_of(p.eng, L))
        ranked = call_named(b, "sort_trees") and src in b[4]
        if not ranked and b != src: c.on_path("G01.products", p, False if contains(b, src) and is_t(b, "slice") else None, "not all trees are passed on", f); continue
        if it.kind == "skip": c.on_path("G01.products", p, False, "a tree is not passed on", f); continue
        tree = new_field(it.val, "parse_tree")
        c.on_path("G01.products", p, how == "all" and p.st.loops.get(L, ("all",))[0] == "all", "not all trees are passed on in ranked order", f)
        c.on_path("G01.product", p, True if tree == T("item", b, idx(L)) or it.val == T("item", b, idx(L)) else None if tree is None else False, "a product does not hold its own tree", f)
        if not ranked: c.on_path("G03.used", p, False, "the trees are not ranked", f)


# ---------------------------------------------------------------- G03
def simp(t):
    """project constructed records"""
    if not isinstance(t, tuple): return t
    t = tuple(simp(x) if isinstance(x, tuple) else x for x in t)
    if is_t(t, "item") and is_t(t[2], "dict") and is_k(t[3]):
        for s in t[2][2:]:
            if s[0] == "put" and s[1] == t[3]: return s[2]
    if is_t(t, "item") and t[2][0] == "tup" and is_k(t[3]) and isinstance(kv(t[3]), int) and -len(t[2]) < kv(t[3]) < len(t[2]) - 1:
        i = kv(t[3]); return t[2][1:][i]
    if is_t(t, "attr") and is_t(t[2], "new"):
        v = new_field(t[2], t[3])
        if v is not None: return v
    return t


X = T("param", "$x")


def stages(p, v, src):
    """v as a chain of stable sorts of src: ([(key over $x, descending)], element over $x); None: not of that form; 'part': elements are lost"""
    v = strip_copy(v) if is_t(v, "list") else v
    if v == src: return [], X
    if is_t(v, "listof") or is_t(v, "tupof"): return stages(p, v[2], src)
    if is_t(v, "reversed"):
        r = stages(p, v[2], src)
        return (r[0] + [("reversed",)], r[1]) if isinstance(r, tuple) else r
    if is_t(v, "slice"):
        if v[3:] == (NONE, NONE, NONE) or v[3:5] == (NONE, NONE) and v[5] == NONE: return stages(p, v[2], src)
        if v[5] == K(-1):
            r = stages(p, v[2], src); return (r[0] + [("reversed",)], r[1]) if isinstance(r, tuple) else r
        return "part"
    if is_t(v, "sorted"):
        r = stages(p, v[2], src)
        if not isinstance(r, tuple): return r
        key = X if v[3] == NONE else v[3]
        if v[3] == NONE: k = r[1]
        else: k = simp(subst(v[3], {T("param", "$e"): r[1]}))
        rev = v[4]
        if not is_k(rev): return None
        return r[0] + [(k, bool(kv(rev)))], r[1]
    if is_t(v, "list") and len(v) == 3 and v[2][0] == "acc":
        L = v[2][1]; lp = p.eng.loops.get(L)
        if lp is None: return None
        mode, al = p.st.loops.get(L, ("all", None))
        alts = [a for i, a in enumerate(lp.alts) if al is None or i in al]
        if mode != "all" or len(alts) != 1: return "part" if any(not a.emits.get(v[2][2]) for a in alts) or mode != "all" else None
        em = alts[0].emits.get(v[2][2], ())
        if len(em) != 1 or em[0][0] != "one": return None if em else "part"
        d = dom_of(p.eng, L); d2 = d
        while is_t(d2, "enumerate"): d2 = d2[2]
        r = stages(p, d2, src)
        if not isinstance(r, tuple): return r
        return r[0], simp(subst(em[0][1], {T("item", d2, idx(L)): r[1], T("item", v_of(d), idx(L)): r[1]}))
    if is_t(v, "list") and all(s[0] == "one" for s in v[2:]):
        if len(v) == 2 and empty_on(p, src): return [], X
        if not any(a[0] in ("eq", "lt", "truthy", "gt") and contains(a, src) for a in p.facts): return "part"   # a fixed number of elements
    if is_t(v, "phi"): v = T("list", ("spread", v))
    if is_t(v, "list") and len(v) == 3 and v[2][0] == "spread" and is_t(v[2][1], "phi"):
        # built front to back by inserting at the start
        L = v[2][1][2]; lp = p.eng.loops.get(L); key = v[2][1][3]
        if lp is None: return None
        mode, al = p.st.loops.get(L, ("all", None))
        alts = [a for i, a in enumerate(lp.alts) if al is None or i in al]
        if mode != "all" or len(alts) != 1: return None
        nx = alts[0].next.get(key)
        if nx is not None and is_t(nx, "list") and len(nx) == 4 and nx[2][0] == "one" and nx[3] == ("spread", v[2][1]):
            b, how = strip_base(lp.dom); r = stages(p, b, src)
            if how in ("all", "reversed") and isinstance(r, tuple):
                ks = r[0] + ([("reversed",)] if how == "all" else [])
                return ks, simp(subst(nx[2][1], {T("item", b, idx(L)): r[1]}))
    return None


def fixed_number(p, v, src):
    """False: v has a fixed number of elements although the number of elements of src is not known on this path"""
    if not (is_t(v, "list") and all(s[0] == "one" for s in v[2:])) or p.imprecise: return None
    if any(contains(a, T("len", src)) or src in a[1:] for a in p.facts): return None
    return True if empty_on(p, src) and len(v) == 2 else False


def empty_on(p, src):
    """no elements in src on this path"""
    if p.dec(("truthy", src)) is False: return True
    for L, (mode, al) in p.st.loops.items():
        if mode == "all" and al is not None and not al and covers(p, L, src) is not None: return True
    return False


def strip_base(d):
    """through enumerate/list/reversed only"""
    how = "all"
    while is_t(d, "enumerate") or is_t(d, "listof") or is_t(d, "reversed"):
        if is_t(d, "reversed"): how = "reversed" if how == "all" else "all"
        d = d[2]
    return d, how


def v_of(d):
    while is_t(d, "enumerate") or is_t(d, "listof"): d = d[2]
    return d


def key_parts(k, rev):
    """key -> list of (sign, measure term)"""
    if k[0] == "tup":
        out = []
        for x in k[1:]:
            r = key_parts(x, rev)
            if r is None: return None
            out += r
        return out
    s = -1 if rev else 1
    while is_t(k, "un") and k[2] == "-": s = -s; k = k[3]
    if is_t(k, "bin") and k[2] == "*" and K(-1) in (k[3], k[4]): s = -s; k = k[3] if k[4] == K(-1) else k[4]
    if is_t(k, "bin") and k[2] == "-" and k[3] == K(0): s = -s; k = k[4]
    return [(s, k)]


def measure(c, k, memo):
    """what a measure over the tree computes: ('boost'|'regexps'|'depth', sign) | 'wrong:...' | None"""
    b, d = plus(k)
    if not is_t(b, "call") or X not in b[4]: return "wrong: it does not look at the children" if contains(b, X) and not any(is_t(x, "call") or is_t(x, "phi") or x and x[0] == "acc" or is_t(x, "sum", "extremum") for x in subterms(b) if isinstance(x, tuple)) else None
    name = b[2]; key = (name, b[3])
    if key in memo: return memo[key]
    fn = find_callee(c, b)
    memo[key] = None
    if fn is None: return None
    memo[key] = classify(c, fn, name)
    return memo[key]


def find_callee(c, call):
    r = call[3]
    if r is not None and is_t(r, "new"): return c.prog.cls(r[2].split(".")[-1]).find(call[2])
    cands = [f for f in c.prog.all_functions() if f.name == call[2]]
    return cands[0] if len(cands) == 1 else None


def classify(c, fn, name):
    node_i = 1 if fn.cls is not None and fn.params and fn.params[0] == "self" else 0
    node = param(fn.params[node_i]); kids = attr(node, "children"); res = set(); under = []
    e = c.machine({name})
    ps = c.method(fn.cls.name, fn.name, engine=e) if fn.cls is not None else c.function(fn, engine=e)
    for p in ps:
        if not p.returns: return None
        pos = p.dec(norm_eq(attr(node, "rule", "antecedent", "position_type"), K("reg-exp")))
        leaf = p.dec(("truthy", kids))
        v = p.v; base = None; kind = None; step = 0
        acc, off = plus(v)
        if is_t(acc, "phi"):
            L = acc[2]; lp = e.loops[L]; init = lp.phi_init.get(acc[3])
            how = covers(p, L, kids)
            if how is None: return None
            if how == "part": return "wrong: not every child is counted"
            mode, al = p.st.loops.get(L, ("all", None))
            for i, a in enumerate(lp.alts):
                if al is not None and i not in al: continue
                nx = next((w for k2, w in a.next.items() if k2 == acc[3]), acc)
                if nx == acc:
                    if is_t(acc): return "wrong: a child is not counted" if not a.facts else None
                rec = T("item", kids, idx(L))
                if is_t(nx, "bin") and nx[2] == "+" and acc in nx[3:5]:
                    o = nx[4] if nx[3] == acc else nx[3]
                    if not (call_named(o, name) and rec in o[4]): return None
                    kk = "sum"
                elif is_t(nx, "extremum"):
                    xs = [s[1] for s in nx[4 - 1][2:]] if is_t(nx[3], "list") else []
                    o = [x for x in xs if x != acc]
                    if acc not in xs or len(o) != 1: return None
                    ob, od = plus(o[0])
                    if not (call_named(ob, name) and rec in ob[4]): return None
                    ext = [plus(x)[1] for x in ob[4] if plus(x)[0] in [param(q) for q in fn.params]]
                    kk = (nx[2], od, max(ext, key=abs) if ext else 0)
                elif call_named(nx, name) and rec in nx[4] and not contains(nx, acc): return "wrong: only the last child counts"
                else: return None
                if kind is not None and kind != kk: return "wrong: the values of the children are put together in different ways"
                kind = kk
            base = init
        elif is_t(acc, "bin") and acc[2] == "+":
            s = next((x for x in acc[3:5] if is_t(x, "sum")), None)
            if s is None:
                x = next((x for x in acc[3:5] if is_t(x, "extremum")), None)
                if x is not None and any(contains(y, attr(node, "rule", "boost")) for y in acc[3:5]) and any(call_named(y, name) for i in (p.seq(x[3]) or []) if i.kind == "one" for y in subterms(i.val)): return "wrong: only one child counts"
                return None
            base = acc[4] if acc[3] == s else acc[3]
            r = sum_over(p, s, kids, name)
            if r is not True: return r
            kind = "sum"
        elif is_t(acc, "sum"):
            r = sum_over(p, acc, kids, name)
            if r is not True: return r
            kind = "sum"; base = acc[3] if len(acc) > 3 and acc[3] is not None else K(0)
        elif is_t(acc, "extremum") and acc[4] in (None, K(None)) and any(call_named(y, name) for i in (p.seq(acc[3]) or []) if i.kind == "one" for y in subterms(i.val)):
            # the extremum of the values of all children, and perhaps of a start value
            kk = None
            for i in p.seq(acc[3]):
                if i.kind == "one" and not i.chain and not contains(i.val, kids): base = i.val; continue
                if i.kind == "skip": return "wrong: not every child is counted"
                if i.kind != "one" or len(i.chain) != 1: return None
                how = covers(p, i.chain[0][0], kids)
                if how == "part": return "wrong: not every child is counted"
                ob, od = plus(i.val); rec = T("item", kids, idx(i.chain[0][0]))
                if how is None or not (call_named(ob, name) and rec in ob[4]): return None
                ext = [plus(x)[1] for x in ob[4] if plus(x)[0] in [param(q) for q in fn.params]]
                k2 = (acc[2], od + off, max(ext, key=abs) if ext else 0)
                if kk is not None and kk != k2: return None
                kk = k2
            if kk is None: return None
            kind = kk
            if base is None and acc[5:6] not in ((), (None,), (K(None),)): base = acc[5]
        else:
            rc = [x for x in subterms(v) if call_named(x, name)]
            if not rc and any(a[0] in ("lt", "gt", "le", "ge", "eq") and contains(a, T("len", kids)) for a in p.facts) and leaf is not False and not any(a[0] == "eq" and t and T("len", kids) in a[1:] and K(0) in a[1:] or a[0] == "lt" and t and a[1] == T("len", kids) and a[2] == K(1) for a, t in p.facts.items()): return "wrong: the children of some nodes are not counted"
            if not rc and not any(contains(x, kids) for x in subterms(v) if is_t(x, "call") or is_t(x, "sum") or is_t(x, "extremum")): res.add(("leaf", nc(v), pos)); continue
            # one child only, whatever their number
            if rc and all(any(is_t(a, "item") and a[2] == kids for a in x[4]) for x in rc) and not any(a[0] in ("eq", "lt", "gt") and contains(a, T("len", kids)) for a in p.facts): return "wrong: not every child is counted"
            return None
        if off and kind == "sum":
            base = K(kv(base) + off) if is_k(base) else base
        res.add((kind, nc(base) if base is not None else None, pos)); under.append((pos, base, p.facts))
    loops_ = [r for r in res if r[0] != "leaf"]
    if not loops_: return "wrong: it does not look at the children"
    if all(r[0] == "sum" for r in loops_):
        bases = {r[1] for r in res}
        if bases == {attr(node, "rule", "boost")}: return ("boost", 1)
        lossy = {"max", "min", "abs", "int", "round", "bool", "len"}
        if any(b is not None and (is_t(b, "extremum", "not_", "mod", "absval") or is_t(b, "call") and b[2] in lossy or is_t(b, "bin") and b[2] in ("%", "//")) and contains(b, attr(node, "rule", "boost")) for b in bases): return "wrong: it does not add the boosts themselves"
        by = {r[2]: r[1] for r in res}
        for at in (True, False):
            if len({b for q, b, fa in under if q is at}) > 1:
                # nodes of the same kind count differently
                other = any(a[0] in ("eq", "lt", "gt", "le", "ge", "in") and not contains(a, kids) and not contains(a, attr(node, "rule", "antecedent", "position_type")) and contains(a, node) for q, b, fa in under if q is at for a in fa)
                return "wrong: it does not count exactly the regular expressions" if other and all(is_k(b) for q, b, fa in under if q is at) else None
        if by.get(True) == K(1) and by.get(False) == K(0): return ("regexps", 1)
        if by.get(True) == K(0) and by.get(False) == K(1): return "wrong: it counts the nodes that are not regular expressions"
        if set(by) == {None}: return "wrong: it does not count the regular expressions" if not any(contains(b, node) for b in bases) else None
        if all(b is not None and is_k(b) for b in bases) and None not in by: return "wrong: it does not count exactly the regular expressions"
        return None
    ks = {r[0] for r in loops_}
    if len(ks) == 1:
        ext, d1, d2 = ks.pop()
        d = d1 + d2
        bases = {r[1] for r in loops_}
        bd = {plus(b)[1] for b in bases if b is not None and not is_k(b)} | {0 for b in bases if b is not None and is_k(b)}
        if ext == "max" and d > 0: return ("depth", 1)
        if ext == "min" and d < 0: return ("depth", -1)
        if d != 0: return "wrong: it measures the shallowest branch"
        return "wrong: it is the same for every depth"
    return None


def sum_over(p, s, kids, name):
    its = p.seq(s[2]) if is_t(s[2], "list") or is_t(s[2], "mut") else None
    if not its: return None
    for it in its:
        if len(it.chain) != 1 or covers(p, it.chain[0][0], kids) is None: return None
        if it.kind == "skip" or covers(p, it.chain[0][0], kids) == "part": return "wrong: not every child is counted"
        if not (call_named(it.val, name) and T("item", kids, idx(it.chain[0][0])) in it.val[4]): return None
    return True


@spec("G03", least=4)
def G03(c):
    f = c.prog.method("BasicParseTreeSortHeuristics", "sort_trees"); src = param(f.params[1]); n = 0; memo = {}
    meas = {m for m in ("get_boost", "count_tokens", "get_depth")}
    # every method that calls itself is a measure
    for fn in c.prog.all_functions():
        if "tree_sort" in fn.module.rel and any(isinstance(x, ast.Call) and (getattr(x.func, "attr", None) == fn.name or getattr(x.func, "id", None) == fn.name) for x in ast.walk(fn.node)) and fn.name not in ("sort", "sort_trees"): meas.add(fn.name)
    for p in c.method("BasicParseTreeSortHeuristics", "sort_trees", opaque=meas):
        if p.raises: continue
        n += 1
        r = stages(p, p.v, src)
        if r is None:
            if p.dec(("truthy", src)) is False and p.v == T("list"): continue
            c.on_path("G03.permutation", p, None, "the ranking is not understood", f); continue
        if r == "part": c.on_path("G03.permutation", p, False, "trees are lost in the ranking", f); continue
        ks, el_ = r
        c.on_path("G03.permutation", p, True if el_ == X else None, "the ranking returns something else than the trees", f)
        order = []; turned = 0
        for st in ks:
            if st == ("reversed",): order = [(-s, k) for s, k in order]; turned ^= 1; continue
            order = key_parts(*st) + order
        c.on_path("G03.stable", p, not turned, "trees that rank the same change places", f)
        names = []
        for s, k in order:
            m = measure(c, k, memo)
            if m is None: names.append(None)
            elif isinstance(m, str): names.append(m)
            else: names.append((m[0], s * m[1]))
        if any(isinstance(x, str) for x in names):
            c.on_path("G03.measure", p, False, f"a ranking measure is wrong: {[x for x in names if isinstance(x, str)][0][7:]}", f); continue
        if None in names: c.on_path("G03.order", p, None, "a ranking measure is not understood", f); continue
        # later occurrences of a measure decide nothing
        seen = []; [seen.append(x) for x in names if x[0] not in [y[0] for y in seen]]
        want = [("boost", -1), ("regexps", 1), ("depth", -1)]
        c.on_path("G03.order", p, seen == want, f"trees are ranked by {seen} (measure, direction), not by largest boost, then fewest regular expressions, then greatest depth", f)
        # reverse keeps the order of equals in Python's sort; checked above
    c.ob("G03.found", True if n else None, c.where(f), "ranking analysed")
    # the parser uses it
    for p in c.method("BasicParser", "process", opaque={"parse", "sort_trees"}):
        if p.raises: continue
        ok = any(e.args and is_t(e.args[0], "attr") and e.args[0][3] == "products" for e, ch, fa in p.calls("sort_trees"))
        fb = c.prog.method("BasicParser", "process")
        c.on_path("G03.used", p, True if ok else False if not p.imprecise and not p.calls("sort_trees") else None, "the trees are not ranked", fb)
    rule_field(c, "G03.boost", "boost", "boost", None, K(0))


def rule_field(c, key, field, name, write, default=None):
    """parse_simple_rule puts simple_rule[name] into field (write: only for write rules / read rules; None: for both)"""
    f = c.prog.method("SimpleGrammarRulesParser", "parse_simple_rule"); R = param(f.params[1]); W = param(f.params[2]); n = 0
    for p in c.method("SimpleGrammarRulesParser", "parse_simple_rule", opaque={"parse_syntax"}):
        if p.raises: continue
        v = new_field(p.v, field)
        if v is None: c.on_path(key, p, None, "rule not understood", f); continue
        has = p.dec(("in", K(name), R)); w = p.dec(("truthy", W))
        val = item(R, name)
        got = v == val or call_named(v, "get") and v[3] == R and v[4][:1] == (K(name),)
        if write is not None and w is None and not got and not any(contains(a, K(name)) for a in p.facts):
            c.on_path(key, p, None, "", f); continue
        if write is None or w == write:
            if has is True: n += 1; c.on_path(key, p, got, f"'{name}' of a rule is not used as its {field}", f)
            elif has is False: c.on_path(key, p, not contains(v, R) if default is None else v == default or v == NONE and default == NONE or None, f"a rule without '{name}' gets one", f)
            else:
                n += 1
                c.on_path(key, p, got if got else False if not contains(v, K(name)) else None, f"'{name}' of a rule is not used as its {field}", f)
        elif w is not None: c.on_path(key, p, not got, f"'{name}' is used in the wrong kind of grammar", f)
    c.ob(key + "-found", True if n else None, c.where(f), f"'{name}' is read")


# ---------------------------------------------------------------- G04
def enqueued(p):
    for e, ch, fa in p.calls("enqueue"):
        if len(e.args) == 2: yield e, ch, fa, e.args[0], e.args[1]


def same(v, *ws): return nc(v) in [nc(w) for w in ws]


@spec("G04", least=25)
def G04(c):
    scan(c); predict(c); complete(c); lexer(c); spans(c); sequences(c, "G04"); c.guard("G04.text", "BasicParser.process", sentence_text, c)


def only_space(v, src):
    """is v the text src with at most its whitespace changed?"""
    import re
    if v == src: return True
    if not is_t(v, "call"): return None
    name, args = v[2], v[4]
    if name == "re.sub" and len(args) >= 3 and is_k(args[0]) and is_k(args[1]) and isinstance(kv(args[0]), str) and isinstance(kv(args[1]), str):
        pat, rep = kv(args[0]), kv(args[1])
        try: rx = re.compile(pat)
        except re.error: return False
        edge = pat.startswith(("^", "\\A")) or pat.endswith(("$", "\\Z"))
        if any(rx.search(chr(i)) for i in range(33, 127)) or rx.search("é") or rep.strip() or not rep and not edge: return False
        return only_space(args[2], src)
    if name in ("strip", "lstrip", "rstrip") and v[3] is not None:
        if args and not (is_k(args[0]) and (kv(args[0]) is None or isinstance(kv(args[0]), str) and not kv(args[0]).strip())): return False
        return only_space(v[3], src)
    if name in ("lower", "upper", "casefold", "title", "capitalize", "replace", "removesuffix", "removeprefix", "swapcase", "expandtabs", "translate") and v[3] is not None and contains(v[3], src): return False
    if name == "join" and is_k(v[3]) and isinstance(kv(v[3]), str) and kv(v[3]) and not kv(v[3]).strip() and len(args) == 1 and is_t(args[0], "call") and args[0][2] == "split" and not args[0][4]:
        return only_space(args[0][3], src)
    return None


def sentence_text(c):
    f = c.prog.method("BasicParser", "process"); src = attr(param(f.params[1]), "text"); n = 0
    for p in c.method("BasicParser", "process", opaque={"parse", "sort_trees"}):
        for e, ch, fa in p.calls("parse"):
            if len(e.args) < 2: continue
            n += 1; t = e.args[1]
            ok = only_space(t, src)
            if ok is None and (is_t(t, "slice") or is_k(t)): ok = False
            c.on_path("G04.text", p, ok, "the text that is parsed is not the sentence with only its whitespace changed", f)
    c.ob("G04.text-found", True if n else None, c.where(f), "the sentence is parsed")


def scan(c):
    f = c.prog.method("EarleyParser", "scan"); chart, state = param(f.params[1]), param(f.params[2]); n = {"reg-exp": 0, "word-form": 0}
    nxt = T("item", attr(state, "rule", "consequents"), T("bin", "+", attr(state, "dot_position"), K(-1)))
    start = attr(state, "end_char_index"); text = attr(chart, "text")
    for p in c.method("EarleyParser", "scan", opaque={"perform_regexp", "read_word", "enqueue", "create_semantic_function_for_scanned_state"}):
        if p.raises: continue
        for e, ch, fa, st, position in enqueued(p):
            ty = None
            for t in ("reg-exp", "word-form", "relation"):
                if fa.get(norm_eq(K(t), attr(nxt, "position_type"))): ty = t
            if ty not in n: c.on_path("G04.scan-type", p, False if ty == "relation" or not any(contains(a, attr(nxt, "position_type")) for a in fa) else None, "a token is read for a constituent that is not a literal or regular expression", f); continue
            n[ty] += 1
            b, e2, dot, rule = (new_field(st, x) for x in ("start_char_index", "end_char_index", "dot_position", "rule"))
            if None in (b, e2, dot, rule): c.on_path("G04.token", p, None, "entry not understood", f); continue
            cons = [i.val for i in p.seq(new_field(rule, "consequents"))] if new_field(rule, "consequents") is not None else []
            word = new_field(cons[0], "predicate") if len(cons) == 1 and is_t(cons[0], "new") else None
            if word is None: c.on_path("G04.token", p, None, "token not understood", f); continue
            c.on_path("G04.token-start", p, b == start, "a token does not start at the current position", f)
            ends = [T("bin", "+", start, T("len", word)), T("bin", "+", T("len", word), start)]
            okend = same(e2, *ends) or prefix_len(p, word, e2, start)
            c.on_path("G04.token-end", p, okend, "a token does not end where its own characters end", f)
            c.on_path("G04.token-position", p, same(position, e2), "a token is not entered at its end", f)
            c.on_path("G04.token-complete", p, True if is_k(dot) and kv(dot) >= 2 else False if is_k(dot) else None, "a token is not entered as complete", f)
            ant = new_field(rule, "antecedent")
            for fl in ("predicate", "position_type"):
                v = attr(nxt, fl); g = new_field(ant, fl) if is_t(ant, "new") else attr(ant, fl) if ant is not None else None
                c.on_path("G04.token-category", p, g == v or ant == nxt or is_k(g) and fa.get(norm_eq(g, v)) or None if g is None else g == v or is_k(g) and fa.get(norm_eq(g, v), False), "a token gets another category than the one that was asked for", f)
            if ty == "word-form":
                rd = [x for x in p.calls("read_word") if same_args(x[0], text, start, attr(nxt, "predicate"))]
                okr = any(fa.get(("truthy", x[0].result)) for x in rd)
                c.on_path("G04.literal", p, word == attr(nxt, "predicate") and okr, "a literal is recognised without being compared with the text at its position", f)
            else: regexp_token(c, p, word, fa, text, start, attr(nxt, "predicate"), f)
    for t, k in n.items(): c.ob("G04.scan-found", True if k else None, c.where(f), f"{t} tokens are read")


def same_args(e, *want): return all(w in e.args for w in want)


def prefix_len(p, word, e2, start):
    return None if p.imprecise else False


def regexp_token(c, p, word, fa, text, start, pattern, f):
    w = word; parts = False
    if is_t(w, "slice"): parts = True; whole_ = w[2]
    else: whole_ = w
    if not call_named(whole_, "perform_regexp"):
        c.on_path("G04.regexp", p, None, "token of a regular expression not understood", f); return
    c.on_path("G04.regexp-at", p, all(x in whole_[4] for x in (text, start, pattern)), "a regular expression is matched elsewhere than at the current position", f)
    nn = p.eng.decide(fstate(fa), ("isnone", whole_))
    if not parts:
        c.on_path("G04.regexp-matched", p, nn is False or p.eng.decide(fstate(fa), ("truthy", whole_)) is True or None if nn is not True else False, "a token is made where a regular expression does not match", f); return
    c.on_path("G04.regexp-prefix", p, w[3] in (NONE, K(0)) and w[5] in (NONE, K(1)), "part of a match that does not start at its beginning becomes a token", f)
    full = any(a[0] == "truthy" and t and is_t(a[1], "call") and ("fullmatch" in a[1][2]) and same_in(a[1], w) and (pattern in a[1][4] or a[1][3] is not None and contains(a[1][3], pattern)) for a, t in fa.items()) or \
        any(a[0] == "isnone" and not t and is_t(a[1], "call") and "fullmatch" in a[1][2] and same_in(a[1], w) for a, t in fa.items()) or \
        any(a[0] == "eq" and t and set(map(nc, a[1:])) == {nc(w), nc(whole_)} for a, t in fa.items())
    c.on_path("G04.regexp-full", p, full, "part of a match becomes a token although the expression does not match it fully", f)


def same_in(call, w): return any(nc(x) == nc(w) for x in call[4])


def predict(c):
    f = c.prog.method("EarleyParser", "predict"); g, chart, state = (param(x) for x in f.params[1:4]); n = 0
    nxt = T("item", attr(state, "rule", "consequents"), T("bin", "+", attr(state, "dot_position"), K(-1)))
    for p in c.method("EarleyParser", "predict", opaque={"find_rules", "enqueue"}):
        if p.raises: continue
        for e, ch, fa, st, position in enqueued(p):
            n += 1
            b, e2, dot, rule = (new_field(st, x) for x in ("start_char_index", "end_char_index", "dot_position", "rule"))
            here = attr(state, "end_char_index")
            c.on_path("G04.predict-span", p, (b, e2, position) == (here, here, here), "an expected phrase does not start at the current position", f)
            c.on_path("G04.predict-dot", p, True if dot == K(1) else False if is_k(dot) else None, "an expected phrase does not start with its first constituent", f)
            fr = next((x for x in subterms(rule) if call_named(x, "find_rules")), None) if rule is not None else None
            if fr is None: c.on_path("G04.predict-rules", p, None, "", f); continue
            c.on_path("G04.predict-rules", p, fr[4][:2] == (attr(nxt, "predicate"), T("len", attr(nxt, "arguments"))), "rules for another category are expected", f)
            if len(ch) == 1: 
                how = covers(p, ch[0][0], fr); allin = every_alt(p, ch[0][0], "enqueue")
                c.on_path("G09.predict-all", p, None if how is None else how == "all" and allin, "not every rule of the expected category is tried", f)
    c.ob("G04.predict-found", True if n else None, c.where(f), "phrases are expected")


def every_alt(p, L, name):
    mode, al = p.st.loops.get(L, ("all", None))
    return all(any(x.kind == "call" and x.d.get("name") == name for x in b.trace) for i, b in enumerate(p.eng.loops[L].alts) if al is None or i in al)


def complete(c):
    f = c.prog.method("EarleyParser", "complete"); chart, done = param(f.params[1]), param(f.params[2]); n = 0
    src = T("item", attr(chart, "states"), attr(done, "start_char_index"))
    for p in c.method("EarleyParser", "complete", opaque={"enqueue", "index_completed_state"}):
        if p.raises: continue
        for e, ch, fa, st, position in enqueued(p):
            n += 1
            b, e2, dot, rule = (new_field(st, x) for x in ("start_char_index", "end_char_index", "dot_position", "rule"))
            L = ch[-1][0] if ch else None
            how = covers(p, L, src) if L is not None else None
            if how is None:
                c.on_path("G04.advance-source", p, None if L is None or not contains(dom_of(p.eng, L), attr(chart, "states")) else False, "phrases are continued that do not wait where the completed phrase starts", f); continue
            old = T("item", src, idx(L))
            nx = T("item", attr(old, "rule", "consequents"), T("bin", "+", attr(old, "dot_position"), K(-1)))
            c.on_path("G04.advance-source", p, True, "entries that end where the completed phrase starts", f)
            c.on_path("G04.advance-span", p, (b, e2, position) == (attr(old, "start_char_index"), attr(done, "end_char_index"), attr(done, "end_char_index")), "a continued phrase does not run from its start to the end of its last constituent", f)
            c.on_path("G04.advance-dot", p, dot == T("bin", "+", attr(old, "dot_position"), K(1)) and rule == attr(old, "rule"), "a continued phrase does not advance by one constituent of its rule", f)
            for fl, key in (("predicate", "category"), ("position_type", "type")):
                ok = fa.get(norm_eq(attr(done, "rule", "antecedent", fl), attr(nx, fl)))
                if ok is None: ok = any(a[0] == "truthy" and t and call_named(a[1], "equals") for a, t in fa.items()) or None
                c.on_path(f"G04.advance-{key}", p, ok if ok is not None else False, f"a phrase is continued by a constituent of another {key}", f)
    c.ob("G04.advance-found", True if n else None, c.where(f), "phrases are continued")


def lexer(c):
    # regular expression at a position
    f = c.prog.method("EarleyParser", "perform_regexp"); text, at, rx = (param(x) for x in f.params[1:4]); n = 0
    for p in c.method("EarleyParser", "perform_regexp"):
        if p.raises: continue
        if p.v == NONE: continue
        n += 1
        v = p.v
        if is_t(v, "call") and v[2] in ("group",) or is_t(v, "item") and is_t(v[2], "call"):
            m = v[3] if v[2] == "group" else v[2]
            idx0 = (v[4][:1] in ((), (K(0),))) if v[2] == "group" else v[3] == K(0)
            part = [T("slice", text, at, NONE, NONE)]
            okm = is_t(m, "call") and (m[2] == "re.match" and m[4][:1] == (rx,) and m[4][1] in part or m[2] == "match" and is_t(m[3], "call") and m[3][2] == "re.compile" and (m[4] == (text, at) or m[4][0] in part))
            bad = is_t(m, "call") and (m[2] in ("re.search", "search") or m[2] in ("re.match", "match") and not okm)
            c.on_path("G04.match-at", p, True if okm else False if bad else None, "a regular expression is not matched at the position itself", f)
            c.on_path("G04.match-text", p, idx0, "the token of a regular expression is not the text it matched", f)
        else: c.on_path("G04.match-at", p, None, "matched text not understood", f)
    c.ob("G04.match-found", True if n else None, c.where(f), "regular expressions are matched")
    # literal at a position
    f = c.prog.method("EarleyParser", "read_word"); text, at, word = (param(x) for x in f.params[1:4]); n = 0
    for p in c.method("EarleyParser", "read_word"):
        if p.raises: continue
        cond = None
        v = p.v
        atoms = [(v[2], v[3])] if is_t(v, "bool") else [(a, t) for a, t in p.facts.items()] if v in (TRUE,) else []
        if v == FALSE:
            eqs = [a for a, t in p.facts.items() if a[0] == "eq" and not t]; ok = True if eqs and all(word_cmp(a, text, at, word) for a in eqs) else None
            c.on_path("G04.literal-case", p, ok, "", f); continue
        n += 1
        got = [(a, t) for a, t in atoms if a[0] == "eq" and t]
        if not got: c.on_path("G04.literal-compare", p, False if not p.imprecise and v == TRUE else None, "a literal is accepted without being compared with the text", f); continue
        ok = any(word_cmp(a, text, at, word) for a, t in got)
        near = any(contains(a, text) for a, t in got)
        c.on_path("G04.literal-compare", p, True if ok else False if near and (v == TRUE or is_t(v, "bool")) else None, "a literal is not compared with exactly the characters at its position, ignoring the case of the text", f)
    c.ob("G04.literal-found", True if n else None, c.where(f), "literals are compared")


def word_cmp(a, text, at, word):
    """atom compares lower(text[at:at+len(word)]) with word (or with its lower case)"""
    for x, y in ((a[1], a[2]), (a[2], a[1])):
        if y != word and not (is_t(y, "call") and y[2] in ("lower", "casefold") and y[3] == word): continue
        if is_t(x, "call") and x[2] in ("lower", "casefold"):
            # folding changes letters that lower case keeps: both sides or none
            if (x[2] == "casefold") != (is_t(y, "call") and y[2] == "casefold" and y != word): continue
            s = x[3]
            if is_t(s, "slice") and s[2] == text and s[3] == at and s[4] in (T("bin", "+", at, T("len", word)), T("bin", "+", T("len", word), at)): return True
            if is_t(s, "slice") and is_t(s[2], "slice") and s[2][2:] == (text, at, NONE, NONE) and s[3] in (NONE, K(0)) and s[4] == T("len", word): return True
    return False


def spans(c):
    # the start and the goal of a parse
    for m, dot, end in (("build_incomplete_gamma_state", 1, K(0)), ("build_complete_gamma_state", 2, T("len", attr(SELF, "text")))):
        f = c.prog.method("Chart", m); n = 0
        for p in c.method("Chart", m):
            if p.raises: continue
            n += 1
            got = tuple(new_field(p.v, x) for x in ("dot_position", "start_char_index", "end_char_index"))
            c.on_path("G04.sentence", p, None if None in got else got == (K(dot), K(0), end), "the sentence is not required to span the whole text", f)
    f = c.prog.function("extract_tree_roots"); n = 0
    for p in c.function("extract_tree_roots", opaque={"create_trees_for_state", "build_complete_gamma_state"}):
        if p.raises or p.v == T("list"): continue
        for e, ch, fa in p.calls("create_trees_for_state"):
            n += 1
            c.on_path("G04.goal", p, any(call_named(x, "build_complete_gamma_state") for x in e.args), "trees are made for something else than a whole sentence", f)
    c.ob("G04.goal-found", True if n else None, c.where(f), "trees are extracted for the goal")


def sequences(c, pid):
    """sequences of constituents of a phrase: each ends where the next starts, the first starts where the phrase starts"""
    f = c.prog.function("find_state_sequences"); chart, parent, end, k = (param(x) for x in f.params[:4]); n = 0
    src = T("item", attr(chart, "completed_states"), end)
    for p in c.function("find_state_sequences", opaque={"find_state_sequences"}):
        if p.raises: continue
        its = p.seq()
        if p.v == T("list"):
            none = p.dec(("in", end, attr(chart, "completed_states"))) is False or p.cmp("le", end, K(0)) or p.dec(norm_eq(end, K(0))) is True or p.cmp("lt", k, K(0)) or p.dec(("truthy", src)) is False or empty_on(p, src)
            c.on_path(f"{pid}.none", p, True if none else None if p.imprecise else False, "constituents are not looked for although there may be some", f)
        for it in its:
            if it.kind == "skip": continue
            if not it.chain: c.on_path(f"{pid}.all-children", p, False if overwritten(p, p.v) else fixed_number(p, p.v, src), "not every possible constituent is tried", f); continue
            L = it.chain[0][0]; how = covers(p, L, src)
            if how == "part": c.on_path(f"{pid}.all-children", p, False, "not every possible constituent is tried", f)
            b, _ = strip_seq(dom_of(p.eng, L))
            if how is None:
                c.on_path(f"{pid}.children", p, False if is_t(b, "item") and b[2] == attr(chart, "completed_states") else None, "the constituents of a phrase do not end where the next one starts", f); continue
            n += 1
            st = T("item", src, idx(L)); cons = T("item", attr(parent, "rule", "consequents"), k); ant = attr(st, "rule", "antecedent")
            c.on_path(f"{pid}.children", p, True, "constituents that end at the position asked for", f)
            cat = [it.facts.get(norm_eq(attr(ant, x), attr(cons, x))) for x in ("predicate", "position_type")]
            cat.append(it.facts.get(norm_eq(T("len", attr(ant, "arguments")), T("len", attr(cons, "arguments")))))
            eqc = any(a[0] == "truthy" and t and call_named(a[1], "equals") for a, t in it.facts.items())
            c.on_path(f"{pid}.child-category", p, True if all(cat) or eqc else False, "a constituent of another category, type or number of arguments is used", f)
            first = it.facts.get(norm_eq(k, K(0)))
            if first is None: first = p.eng.decide(fstate(it.facts), norm_eq(k, K(0)))
            if first is None:
                lt1 = Path(p.eng, fstate(it.facts), "return", NONE).cmp("le", k, K(0)); first = lt1
            vals = flat(it.val)
            if first:
                c.on_path(f"{pid}.first-start", p, it.facts.get(norm_eq(attr(st, "start_char_index"), attr(parent, "start_char_index"))) is True, "the first constituent of a phrase does not have to start where the phrase starts", f)
                c.on_path(f"{pid}.child-order", p, vals == [("one", st)], "the first constituent is not the start of the sequence", f)
            elif first is False:
                if vals is None: c.on_path(f"{pid}.child-order", p, None, "", f); continue
                rec = next((x for x in subterms(it.val) if call_named(x, "find_state_sequences")), None)
                if rec is None: c.on_path(f"{pid}.child-order", p, False if vals == [("one", st)] else None, "the earlier constituents of a phrase are left out", f); continue
                L2 = it.chain[-1][0]
                want = [("spread", T("item", rec, idx(L2))), ("one", st)]
                c.on_path(f"{pid}.child-order", p, same_list(vals, want), "the constituents of a phrase are not kept in the order of its rule", f)
                a = rec[4]
                c.on_path(f"{pid}.previous", p, a[0] == chart and a[1] == parent and a[2] == attr(st, "start_char_index") and a[3] == T("bin", "+", k, K(-1)), "the previous constituent does not end where this one starts", f)
            else: c.on_path(f"{pid}.first-start", p, None, "", f)
    c.ob(f"{pid}.children-found", True if n >= 2 else None, c.where(f), "sequences of constituents analysed")
    return n


def flat(v):
    if is_t(v, "list"): return [(s[0], s[1]) for s in v[2:] if s[0] in ("one", "spread")] if all(s[0] in ("one", "spread") for s in v[2:]) else None
    if is_t(v, "bin") and v[2] == "+":
        a, b = flat(v[3]), flat(v[4]); return a + b if a is not None and b is not None else None
    if is_t(v, "mut"): return None
    return [("spread", v)]


def same_list(a, b): return a is not None and [(k, nc(v)) for k, v in a] == [(k, nc(v)) for k, v in b]


# ---------------------------------------------------------------- G06
@spec("G06", least=6)
def G06(c):
    tab = relation_table(c, "GrammarModule", c.machine({"parse_simple_rule", "add_rule"}))
    e0, s0, mod, rels = tab
    init = c.prog.cls("GrammarModule").find("__init__")
    g = s0.fields.get((mod, "grammar"))
    gp = param(init.params[1]) if len(init.params) > 1 else None
    c.ob("G06.same-grammar", True if g == gp and g is not None else False if g is not None and contains(e0.freeze(s0, g), gp) else None, c.where(init), "the grammar module works on a copy of the grammar it is given")
    init2 = c.prog.method("BasicParser", "__init__")
    for s, v in (lambda e: list(e.construct(State(), c.prog.cls("BasicParser").qual, [e.param(x, None) for x in init2.params[1:]], {}, None)))(c.machine()):
        if is_exc(v): continue
        gg = s.fields.get((v, "grammar")); want = param(init2.params[1])
        c.ob("G06.parser-grammar", True if gg == want else False if gg is not None else None, c.where(init2), "the parser keeps a copy of the grammar it is given")
    e, f, ps = run_handler(c, "GrammarModule", "learn_grammar_rule", table=tab, width=1)
    n = 0
    for p in ps:
        pr = p.calls("parse_simple_rule"); ad = p.calls("add_rule")
        if p.raises: c.on_path("G06.error", p, False if p.v[3] == "explicit" and not pr else None, "learning a rule fails", f); continue
        n += 1
        done_once(c, "G06.succeeds", p, 1, "learn_grammar_rule", f)
        if not pr: c.on_path("G06.reads", p, None if p.imprecise else False, "the rule is not read", f); continue
        a = list(pr[0][0].args); kw = pr[0][0].kwargs or {}
        w = a[1] if len(a) > 1 else kw.get("write_rules")
        c.on_path("G06.reads", p, a[:1] == [item(param("values"), 0)], "another value than the given rule is read", f)
        c.on_path("G06.read-rule", p, True if w == FALSE else False if w is None or is_k(w) or contains(w, param("values")) else None, "the rule is not read the way rules of a read grammar are read", f)
        ok = [x for x in ad if x[0].args and x[0].args[0] == pr[0][0].result]
        c.on_path("G06.adds", p, bool(ok) and not ok[0][1] and len(ad) == 1, "the rule that was read is not added once to the grammar", f)
        for x in ok:
            r = x[0].recv; tgt = e.freeze(p.st, r) if r is not None else None
            c.on_path("G06.grammar", p, True if tgt in (gp, attr(mod, "grammar")) or r == gp else None if tgt is None else False, "the rule is added to another grammar than the one in use", f)
    c.ob("G06.found", True if n else None, c.where(f), "learning a rule analysed")
    # reading a read grammar
    fr = c.prog.method("SimpleGrammarRulesParser", "parse_read_grammar")
    for p in c.method("SimpleGrammarRulesParser", "parse_read_grammar", opaque={"parse_simple_rule", "GrammarRules", "add_rule"}):
        for e2, ch, fa in p.calls("parse_simple_rule"):
            a = e2.args; w = a[1] if len(a) > 1 else (e2.kwargs or {}).get("write_rules")
            c.on_path("G06.read-kind", p, True if w == FALSE else False if is_k(w) else None, "rules of a read grammar are read as write rules", fr)
    # adding keeps the rules that are there
    add_keeps(c, "G06")


def add_keeps(c, pid):
    f = c.prog.method("GrammarRules", "add_rule"); rule = param(f.params[1]); IDX = attr(SELF, "index")
    cat = attr(rule, "antecedent", "predicate"); cnt = T("len", attr(rule, "antecedent", "arguments")); n = 0
    for p in c.method("GrammarRules", "add_rule", opaque={"create_rule_variants"}):
        if p.raises: continue
        n += 1
        o = p.st.heap.get(IDX); segs = list(o.segs) if o is not None else [("base", IDX)]
        lost = not segs or segs[0] != ("base", IDX)
        c.on_path(f"{pid}.keeps", p, not lost, "adding a rule loses the rules of other categories", f)
        in1 = p.dec(("in", cat, IDX)); in2 = p.dec(("in", cnt, item_(IDX, cat)))
        for s in segs[1:]:
            if s[0] == "put":
                c.on_path(f"{pid}.keeps", p, in1 is False and s[1] == cat if s[1] == cat else False, "adding a rule replaces the rules of a category", f)
        o2 = p.st.heap.get(item_(IDX, cat))
        if o2 is not None:
            s2 = list(o2.segs)
            if s2 and s2[0] == ("base", item_(IDX, cat)):
                for s in s2[1:]:
                    if s[0] == "put": c.on_path(f"{pid}.keeps", p, in2 is False and s[1] == cnt, "adding a rule replaces the rules of a category", f)
        # where the variants go
        vs = p.calls("create_rule_variants")
        if not vs: c.on_path(f"{pid}.variants", p, None, "", f); continue
        V_ = vs[0][0].result
        dest = final_list(p, IDX, cat, cnt)
        if dest is None: c.on_path(f"{pid}.appends", p, None, "where the rule is stored is not understood", f); continue
        base, its = dest
        good = [i for i in its if i[0] == "all" and nc(i[1]) == nc(V_)]
        c.on_path(f"{pid}.appends", p, len(good) == 1 and len(its) == 1, "not every variant of the rule is added under its antecedent and number of arguments", f)
        if in1 and in2: c.on_path(f"{pid}.keeps", p, base, "adding a rule loses the earlier rules of its category", f)
    c.ob(f"{pid}.keeps-found", True if n else None, c.where(f), "adding a rule analysed")


def item_(a, b): return T("item", a, b)


def final_list(p, IDX, cat, cnt):
    """(keeps base?, [('all', source)] | ...) for the list at IDX[cat][cnt] after the path"""
    loc = item_(item_(IDX, cat), cnt)
    o = p.st.heap.get(loc)
    if o is not None: segs = p.eng.freeze(p.st, loc)
    else:
        v = p.eng.freeze(p.st, IDX)
        for k in (cat, cnt):
            w = None
            if is_t(v, "mut") or is_t(v, "dict"):
                for s in v[3 if is_t(v, "mut") else 2:]:
                    if s[0] == "put" and s[1] == k: w = s[2]
            if w is None:
                w = p.st.heap.get(item_(IDX, cat)) if k == cat else None
                w = p.eng.freeze(p.st, item_(IDX, cat)) if w is not None else None
            if w is None: return None
            v = w
        segs = v
    if is_t(segs, "mut"): s = segs[3:]
    elif is_t(segs, "list"): s = segs[2:]
    elif is_t(segs, "call"): return False, [("all", segs)]        # a list that was made here
    else: return None
    base = any(x[0] == "base" for x in s); out = []
    for x in s:
        if x[0] == "base": continue
        if x[0] == "spread": out.append(("all", x[1])); continue
        if x[0] == "acc":
            L = x[1]; lp = p.eng.loops[L]; mode, al = p.st.loops.get(L, ("all", None))
            b, how = strip_seq(dom_of(p.eng, L))
            okall = mode == "all" and how == "all" and all(a.emits.get(x[2]) == (("one", item_(b, idx(L))),) for i, a in enumerate(lp.alts) if al is None or i in al)
            out.append(("all" if okall else "part", b)); continue
        out.append((x[0], x[1]))
    return base, out


# ---------------------------------------------------------------- G07
@spec("G07", least=40)
def G07(c):
    variant_steps(c)
    # the variants: copies of the rule with their own constituents
    f = c.prog.method("GrammarRules", "create_rule_variants"); rule = param(f.params[1]); n = 0
    for p in c.method("GrammarRules", "create_rule_variants", opaque={"create_rule_variants_rest"}):
        if p.raises: c.on_path("G07.copy", p, False if p.v[3] == "explicit" else None, "a rule is refused", f); continue
        calls = p.calls("create_rule_variants_rest")
        if not calls: c.on_path("G07.start", p, None, "", f); continue
        R = calls[0][0].result; a = calls[0][0].args; n += 1
        c.on_path("G07.start", p, True if a == (rule, K(0), T("list", ("one", T("list")))) else False if a[0] == rule and is_k(a[1]) and a[2] in (T("list"), T("list", ("one", T("list")))) else None, "variants do not start from the empty rule before the first part", f)
        o = p.st.heap.get(rule); own = p.st.fields.get((rule, "consequents"))
        touched = [e.d.get("name") for e, ch, fa in p.events("setattr") if e.d.get("base") == rule]
        c.on_path("G07.rule-unchanged", p, not touched, "the rule itself is changed when its variants are made", f)
        its = p.seq()
        if not its and p.v == T("list"): c.on_path("G07.every-variant", p, empty_on(p, R) or fixed_number(p, p.v, R), "a variant is dropped", f)
        for it in its:
            if len(it.chain) != 1: c.on_path("G07.every-variant", p, fixed_number(p, p.v, R), "a variant is dropped", f); continue
            L = it.chain[0][0]; w = covers(p, L, R)
            c.on_path("G07.every-variant", p, None if w is None else w != "part" and it.kind == "one", "a variant is dropped", f)
            if it.kind != "one": continue
            v = it.val; el_ = T("item", R, idx(L))
            cons = new_field(v, "consequents")
            if v == rule: c.on_path("G07.own-parts", p, False, "the variants are the rule itself", f); continue
            if cons is None and is_t(v, "new") and ("base", rule) in v[3:]: cons = attr(rule, "consequents")
            c.on_path("G07.own-parts", p, None if cons is None else strip_copy(cons) == el_ or nc(cons) == nc(el_) or False, "a variant does not have its own constituents", f)
            whole = any(x == ("base", rule) or x[:1] == ("base",) and x[1] == rule for x in v[3:] if isinstance(x, tuple)) if is_t(v, "new") else False
            for fld in ("antecedent", "sem", "exec", "post", "dialog", "boost"):
                w2 = new_field(v, fld); ok = whole if w2 is None else w2 == attr(rule, fld)
                c.on_path("G07.keeps-" + fld, p, ok if is_t(v, "new") else None, f"a variant loses the rule's {fld}", f)
    c.ob("G07.copy-found", True if n else None, c.where(f), "variants are made")
    add_keeps(c, "G07")
    lookup(c)
    # construction adds every rule
    f = c.prog.method("GrammarRules", "__init__"); rules = param(f.params[1]); n = 0
    e = c.machine({"add_rule"})
    for p in c.paths_of(e, [(s, ("raise", v) if is_exc(v) else ("return", v)) for s, v in e.construct(State(), c.prog.cls("GrammarRules").qual, [e.param(f.params[1], None)], {}, None)]):
        if p.raises: continue
        ad = p.calls("add_rule")
        if not ad: c.on_path("G07.all-rules", p, True if empty_on(p, rules) else fixed_number(p, T("list"), rules), "the rules of a grammar are not added", f); continue
        for x, ch, fa in ad:
            n += 1
            L = ch[0][0] if len(ch) == 1 else None
            w = covers(p, L, rules) if L is not None else None
            skipped = L is not None and any(not any(t.kind == "call" and t.d.get("name") == "add_rule" for t in al.trace) for i, al in enumerate(p.eng.loops[L].alts) if p.st.loops.get(L, ("all", None))[1] is None or i in p.st.loops[L][1])
            if not ch: c.on_path("G07.all-rules", p, fixed_number(p, T("list"), rules), "not all rules of a grammar are added", f); continue
            c.on_path("G07.all-rules", p, None if w is None else w == "all" and not skipped and x.args[:1] == (T("item", strip_seq(dom_of(p.eng, L))[0], idx(L)),), "a rule of the grammar is not added, or in another order", f)
    c.ob("G07.all-rules-found", True if n else None, c.where(f), "a grammar's rules are added")


def plain_index(c, f):
    """the index is an ordinary dict, and f does not catch a missing key"""
    if any(isinstance(x, ast.Try) for x in ast.walk(f.node)): return False
    return not any("defaultdict" in ast.dump(m.node) for m in f.cls.methods.values()) if f.cls is not None and hasattr(f.cls, "methods") else False


def lookup(c):
    IDX = attr(SELF, "index")
    f = c.prog.method("GrammarRules", "find_rules"); cat, cnt = (param(x) for x in f.params[1:3]); n = 0
    for p in c.method("GrammarRules", "find_rules"):
        if p.raises: c.on_path("G07.find", p, False, "looking up rules fails", f); continue
        v = strip_copy(p.v); n += 1
        a, b = p.dec(("in", cat, IDX)), p.dec(("in", cnt, item_(IDX, cat)))
        if v == item_(item_(IDX, cat), cnt): c.on_path("G07.find", p, True if a and b else False if a is False or b is False or plain_index(c, f) else None, "rules are looked up in a place that may not be there", f)
        elif v == T("list") or v[0] == "tup" and len(v) == 1: c.on_path("G07.find", p, True if a is False or b is False else None if p.imprecise else False, "rules that are there are not found", f)
        elif is_t(v, "call") and v[2] == "get" and v[4][:1] == (cnt,) and contains(v[3], cat) and contains(v[3], IDX): c.on_path("G07.find", p, True, "", f)
        else: c.on_path("G07.find", p, False if is_t(v, "slice") or is_t(v, "item") and v[2] == IDX or is_t(v, "item") and is_t(v[2], "item") and v[2][2] == IDX else None, "the rules of another antecedent or number of arguments are found, or not all", f)
    c.ob("G07.find-found", True if n else None, c.where(f), "rules are looked up")
    f = c.prog.method("GrammarRules", "find_argument_counts"); cat = param(f.params[1]); n = 0
    for p in c.method("GrammarRules", "find_argument_counts"):
        if p.raises: c.on_path("G07.counts", p, False, "looking up rules fails", f); continue
        n += 1; v = strip_copy(p.v); a = p.dec(("in", cat, IDX))
        if is_t(v, "call") and v[2] in ("keys", "get"): v = item_(v[3], v[4][0]) if v[2] == "get" and v[4] else v[3]
        while is_t(v, "listof") or is_t(v, "sorted") or is_t(v, "keys") or is_t(v, "set") and len(v) == 3: v = v[2] if not is_t(v, "set") else v[2][1]
        if v == item_(IDX, cat) and is_t(p.v, "call"): c.on_path("G07.counts", p, True, "", f)
        elif v == item_(IDX, cat): c.on_path("G07.counts", p, True if a else False if a is False or plain_index(c, f) else None, "rules are looked up in a place that may not be there", f)
        elif v in (T("list"), T("dict")): c.on_path("G07.counts", p, True if a is False else None if p.imprecise else False, "the numbers of arguments of a category are not found", f)
        else: c.on_path("G07.counts", p, None, "", f)
    c.ob("G07.counts-found", True if n else None, c.where(f), "numbers of arguments are looked up")


def fewer(v):
    """a slice that may lose elements"""
    return not (v[3] in (NONE, K(0)) and v[4] == NONE and v[5] in (NONE, K(1), K(-1)))


def variant_steps(c):
    """one step of making variants, for every combination of what the next two parts are"""
    import itertools
    f = c.prog.method("GrammarRules", "create_rule_variants_rest"); rule, ix, vs = (param(x) for x in f.params[1:4])
    cons = attr(rule, "consequents"); C = T("item", cons, ix); nx = T("bin", "+", ix, K(1)); Nx = T("item", cons, nx); n = 0
    for p in c.method("GrammarRules", "create_rule_variants_rest", opaque={"create_rule_variants_rest"}):
        if p.raises: c.on_path("G07.step", p, False if p.v[3] == "explicit" else None, "a rule is refused", f); continue
        end = p.dec(norm_eq(T("len", cons), ix))
        if end is None: end = p.cmp("ge", ix, T("len", cons))
        if strip_copy(p.v) == vs:
            c.on_path("G07.end", p, end if end is not None else (None if p.imprecise else False), "the variants are returned before the last part was added", f); continue
        rec = p.v
        if not call_named(rec, "create_rule_variants_rest"): c.on_path("G07.step", p, None, "step not understood", f); continue
        if end: c.on_path("G07.end", p, False, "a part after the last is asked for", f); continue
        a = rec[4]
        b, skip = plus(a[1])
        if a[0] != rule or b != ix or skip not in (1, 2): c.on_path("G07.next", p, False if b == ix or is_k(a[1]) else None, "the next step skips parts, or does not advance", f); continue
        its = p.seq(a[2])
        groups = []; bad = None
        for it in its:
            if it.kind == "spread" and strip_copy(it.val) == vs and not it.chain: groups.append((None, {}, ())); continue
            if it.kind == "spread" and not it.chain and is_t(it.val, "slice") and it.val[2] == vs and fewer(it.val):
                c.on_path("G07.all-variants", p, False, "a variant made so far is lost", f); bad = "x"; continue
            if it.kind == "one" and not it.chain and is_t(it.val, "list"): bad = "one"; continue
            if len(it.chain) != 1 or covers(p, it.chain[0][0], vs) is None: bad = "dom"; continue
            L = it.chain[0][0]; v = T("item", vs, idx(L))
            if covers(p, L, vs) == "part": c.on_path("G07.all-variants", p, False, "a variant made so far is lost", f); bad = "x"; continue
            if it.kind == "skip": groups.append((v, it.facts, None)); continue
            fl = flat(it.val)
            if fl is None: bad = "val"; continue
            if fl[:1] == [("spread", v)]: rest = fl[1:]
            elif not any(k == "spread" for k, _ in fl) and all(k == "one" for k, _ in fl): rest = fl; 
            else:
                if ("spread", v) in fl: c.on_path("G07.order", p, False, "parts are put before the parts that precede them", f)
                bad = "val"; continue
            keep = fl[:1] == [("spread", v)]
            names = tuple("c" if x == C else "n" if x == Nx else "?" for k, x in rest)
            groups.append((v, it.facts, (keep,) + names))
        if bad: 
            if bad != "x": c.on_path("G07.step", p, None, "step not understood", f)
            continue
        if any(g[2] and "?" in g[2] for g in groups): c.on_path("G07.step", p, None, "a part is not understood", f); continue
        n += 1
        wrong = None
        for copt, csep, nex, nopt, nsep, full in itertools.product((False, True), repeat=6):
            if not nex and (nopt or nsep): continue
            env = {}
            def val(atom, facts):
                return p.eng.decide(fstate(facts), atom)
            def consistent(facts, v):
                for atom, want in ((("truthy", attr(C, "optional")), copt), (("truthy", attr(C, "separator")), csep), (("truthy", attr(Nx, "optional")), nopt if nex else None), (("truthy", attr(Nx, "separator")), nsep if nex else None), (("truthy", C), True), (("truthy", Nx), True if nex else None), (("isnone", Nx), False if nex else None)):
                    d = val(atom, facts)
                    if want is None:
                        if d is not None: return False      # facts about a part that does not exist
                        continue
                    if d is not None and d != want: return False
                d = Path(p.eng, fstate(facts), "return", NONE).cmp("lt", nx, T("len", cons))
                if d is not None and d != nex: return False
                if v is not None:
                    d = val(("truthy", v), facts)
                    if d is None:
                        e = val(norm_eq(T("len", v), K(0)), facts); d = None if e is None else not e
                    if d is not None and d != full: return False
                return True
            if not consistent(p.facts, None): continue
            got = set(); cnt = 0
            for v, facts, names in groups:
                if v is not None and not consistent(facts, v): continue
                if names is None: continue
                cnt += 1
                if v is None: got.add(())
                elif names[0] or not full: got.add(names[1:])
                else: got.add(("lost",))
            pair = csep and nex and not nsep
            if pair:
                want = {("c", "n") if full else ("n",)}
                if full and copt: want.add(("n",))
                if nopt: want.add(())
                ok = skip == 2 and got == want
                if skip == 1 and not nopt: ok = got == ({("c",)} | ({()} if copt else set()) if full else {()})
            else:
                want = {("c",)} | ({()} if copt else set())
                ok = skip == 1 and got == want
            if cnt != len(got): wrong = wrong or ("a variant is made twice", copt, csep, nex, nopt, nsep, full)
            if not ok: wrong = wrong or (f"got {sorted(got)} skip {skip}, want {sorted(want)}", copt, csep, nex, nopt, nsep, full)
        if wrong:
            d = ("optional " if wrong[1] else "") + ("separator" if wrong[2] else "part") + (" before " + ("an optional " if wrong[4] else "a ") + ("separator" if wrong[5] else "part") if wrong[3] else " at the end") + (", after other parts" if wrong[6] else ", at the start of a variant")
            c.on_path("G07.step", p, False, f"wrong variants for an {d}: {wrong[0]}" if d[0] in "aeio" else f"wrong variants for a {d}: {wrong[0]}", f)
        else: c.on_path("G07.step", p, True, "every variant is made", f)
    c.ob("G07.step-found", True if n >= 2 else None, c.where(f), "steps analysed")


# ---------------------------------------------------------------- G08
@spec("G08", least=12)
def G08(c):
    f = c.prog.function("create_trees_for_state"); chart, state = (param(x) for x in f.params[:2]); rule = attr(state, "rule")
    nleaf = nnode = 0
    term_args = attr(T("item", attr(rule, "consequents"), K(0)), "arguments")
    for p in c.function("create_trees_for_state", opaque={"find_state_sequences", "create_trees_for_state", "is_terminal"}):
        if p.raises: c.on_path("G08.raises", p, False if p.v[3] == "explicit" else None, "building trees fails", f); continue
        leaf = next((t for a, t in p.facts.items() if a[0] == "truthy" and call_named(a[1], "is_terminal") and a[1][3] == state), None)
        its = p.seq()
        if leaf:
            nodes = [i for i in its if i.kind == "one" and not i.chain]
            c.on_path("G08.word", p, len(nodes) == 1 and len(its) == 1 if all(i.kind in ("one", "skip") for i in its) else None, "a word does not give exactly one tree", f)
            for i in nodes:
                nleaf += 1
                form = new_field(i.val, "form"); kids = new_field(i.val, "children")
                c.on_path("G08.word-text", p, None if form is None else form == attr(T("item", attr(rule, "consequents"), K(0)), "predicate"), "a word node does not carry the text it matched", f)
                c.on_path("G08.word-children", p, None if kids is None else kids == T("list") or (False if is_t(kids, "list") else None), "a word node has children", f)
                node_fields(c, p, i.val, rule, f)
            continue
        if leaf is None: c.on_path("G08.kind", p, None, "", f)
        seqs = [e.result for e, ch, fa in p.calls("find_state_sequences")]
        if not seqs: c.on_path("G08.sequences", p, None if p.imprecise else False, "the constituents of a phrase are not looked up", f); continue
        S0 = seqs[0]; a = S0[4]
        end = attr(state, "end_char_index"); last = T("bin", "+", T("len", attr(rule, "consequents")), K(-1))
        c.on_path("G08.whole", p, a[0] == chart and a[1] == state and a[2] == end and a[3] == last if len(a) == 4 else None, "the constituents of a phrase are not looked up from its end and its last constituent", f)
        if not its or any(not i.chain for i in its):
            c.on_path("G08.combinations", p, fixed_number(p, p.v, S0), "trees are lost", f); continue
        for i in its:
            L = i.chain[0][0]; w = covers(p, L, S0)
            if w is None and i.val is not None and any(is_t(x, "item") and x[2] == S0 and is_t(x[3], "idx") and p.st.loops.get(x[3][2], ("all",))[0] == "prefix" for q in [i.val] + [dom_of(p.eng, L)] for x in subterms(q)): w = "part"
            c.on_path("G08.sequences", p, None if w is None else w != "part" and i.kind != "skip", "a sequence of constituents is skipped", f)
            if w is None or i.kind != "one": continue
            nnode += 1
            st = p.st.loops.get(L)
            kids = new_field(i.val, "children"); s = T("item", S0, idx(L))
            if kids is None: c.on_path("G08.children", p, None, "", f); continue
            combos(c, p, i, kids, s, chart, f)
            c.on_path("G08.form", p, new_field(i.val, "form") in (K(""), None), "a phrase has the form of a word", f)
            node_fields(c, p, i.val, rule, f)
    c.ob("G08.found", True if nleaf and nnode else None, c.where(f), "nodes for words and phrases are built")
    # which entries are words
    ft = c.prog.method("ChartState", "is_terminal"); n = 0
    con = attr(SELF, "rule", "consequents"); arg = attr(T("item", con, K(0)), "arguments")
    TERM = None
    for p in c.method("ChartState", "is_terminal"):
        if p.raises: continue
        n += 1
        if is_t(p.v, "bool"):
            at = p.v[2]; c.on_path("G08.is-word", p, at[0] == "eq" and p.v[3] and any(x == T("item", arg, K(0)) for x in at[1:]) or None, "", ft)
    # all trees of the goal
    f = c.prog.function("extract_tree_roots"); n = 0
    for p in c.function("extract_tree_roots", opaque={"create_trees_for_state", "build_complete_gamma_state"}):
        if p.raises: continue
        calls = p.calls("create_trees_for_state")
        if not calls:
            # no trees without looking: only where nothing complete ends at the end of the text
            g = next((e.result for e, ch, fa in p.calls("build_complete_gamma_state")), None)
            key = attr(g, "end_char_index") if g else None
            d = p.dec(("in", key, attr(param(f.params[0]), "completed_states"))) if g else None
            c.on_path("G08.goal", p, True if d is False and p.v == T("list") else False if not p.imprecise and p.v == T("list") else None, "no trees are made although there are some", f); continue
        R = calls[0][0].result; n += 1
        its = p.seq()
        if not its or any(not i.chain for i in its): c.on_path("G08.all-roots", p, fixed_number(p, p.v, R), "trees are lost", f); continue
        for i in its:
            L = i.chain[0][0]; w = covers(p, L, R)
            c.on_path("G08.all-roots", p, None if w is None else w != "part" and i.kind != "skip", "trees are lost", f)
            if i.kind == "one" and w: c.on_path("G08.root", p, i.val == item(attr(item(attr(T("item", R, idx(L)), "children"), 0), "children"), 0) or (None if not contains(i.val, R) else False), "the tree of the sentence is not the sentence category's own node", f)
    c.ob("G08.roots-found", True if n else None, c.where(f), "trees of the sentence are extracted")
    # entries that are complete can be found by where they end
    f = c.prog.method("Chart", "index_completed_state"); st = param(f.params[1]); IDX = attr(SELF, "completed_states"); key = attr(st, "end_char_index"); n = 0
    for p in c.method("Chart", "index_completed_state"):
        if p.raises: continue
        n += 1
        indexed(c, p, IDX, key, st, f)
    c.ob("G08.index-found", True if n else None, c.where(f), "complete entries are indexed")
    f = c.prog.method("EarleyParser", "complete"); chart, st = (param(x) for x in f.params[1:3])
    for p in c.method("EarleyParser", "complete", opaque={"enqueue", "index_completed_state"}):
        if p.raises: continue
        ic = [e for e, ch, fa in p.calls("index_completed_state") if not ch]
        c.on_path("G08.indexes", p, bool(ic) and ic[0].args == (st,) and ic[0].recv == chart if ic or not p.imprecise else None, "a complete entry cannot be found by the tree extraction", f)
    sequences(c, "G08")


def indexed(c, p, IDX, key, st, f):
    loc = item_(IDX, key); was = p.dec(("in", key, IDX))
    o = p.st.heap.get(IDX); o2 = p.st.heap.get(loc)
    segs = list(o.segs) if o is not None else [("base", IDX)]
    if segs[:1] != [("base", IDX)]: c.on_path("G08.index", p, False, "entries found earlier are lost", f); return
    for s in segs[1:]:
        if s[0] == "put" and s[1] == key and was is not False: c.on_path("G08.index", p, False if was else None, "entries that end at the same place are lost", f)
    v = None
    if o2 is not None: v = p.eng.freeze(p.st, loc); its = p.seq(v)
    else:
        puts = [s[2] for s in segs[1:] if s[0] == "put" and s[1] == key]
        if not puts: c.on_path("G08.index", p, False if not p.imprecise and len(segs) == 1 else None, "a complete entry is not indexed by where it ends", f); return
        its = p.seq(p.eng.freeze(p.st, puts[-1]))
    ones = [i.val for i in its if i.kind == "one" and not i.chain]
    c.on_path("G08.index", p, True if st in ones else None if any(i.chain for i in its) else False, "a complete entry is not indexed by where it ends", f)


def node_fields(c, p, v, rule, f):
    cat, r = new_field(v, "category"), new_field(v, "rule")
    c.on_path("G08.rule", p, None if r is None else r == rule, "a node does not carry its own rule", f)
    c.on_path("G08.category", p, None if cat is None else cat == attr(rule, "antecedent", "predicate"), "a node does not carry the category of its rule", f)


def combos(c, p, it, kids, s, chart, f):
    """kids: one combination of the product of the trees of every constituent of sequence s, in order"""
    k = strip_copy(kids)
    if is_t(k, "listof"): k = k[2]
    if is_t(k, "item"): k = T("item", strip_seq(k[2])[0], k[3])
    if not (is_t(k, "item") and is_t(k[2], "call") and k[2][2].split(".")[-1] == "product"):
        b = k[2] if is_t(k, "item") else k
        side = [x for x in ([dom_of(p.eng, it.chain[-1][0])] if len(it.chain) > 1 else []) if x and (x[0] == "starunk" or is_t(x, "zip") or is_t(x, "call") and x[2] == "zip")]
        if side and (k[0] == "tup" or is_t(k, "list") and not any(x[0] == "acc" for x in k[2:])) and any(is_t(x, "starunk") or x[0] == "starunk" for x in subterms(k) if isinstance(x, tuple) and x): c.on_path("G08.children", p, False, "not every combination of subtrees gives a tree", f)
        elif is_t(b, "call") and b[2].split(".")[-1] in ("zip", "combinations", "permutations"): c.on_path("G08.children", p, False, "not every combination of subtrees gives a tree", f)
        elif is_t(k, "list") and len(k) == 3 and k[2][0] == "acc":      # one tree per constituent: the n-th of each
            c.on_path("G08.children", p, False if p.seq(k) and all(i.kind == "one" and is_t(i.val, "item") and is_k(i.val[3]) and call_named(i.val[2], "create_trees_for_state") for i in p.seq(k)) else None, "not every combination of subtrees gives a tree", f)
        else: c.on_path("G08.children", p, None, "", f)
        return
    pr = k[2]; L2 = it.chain[-1][0]
    al = it.loops.get(L2) or p.st.loops.get(L2)
    dd = p.eng.loops[L2].dom; b, how = strip_seq(dd)
    c.on_path("G08.all-combinations", p, False if how == "part" or al is not None and al[0] != "all" else True if b == pr else None, "not every combination of subtrees gives a tree", f)
    src = pr[4][0] if len(pr[4]) == 1 else None
    if src is not None and src[0] == "starunk": src = src[1]
    if src is None: c.on_path("G08.children", p, None, "", f); return
    how2 = "all"
    if is_t(src, "reversed") or is_t(src, "slice") or is_t(src, "sorted"): src, how2 = strip_seq(src)
    if not _exp_at(p, src, it): c.on_path("G08.children", p, None, "", f)
    for i in _exp_at(p, src, it):
        if not i.chain: c.on_path("G08.children", p, None, "", f); continue
        L3 = i.chain[0][0]; w = covers(p, L3, s, i.loops)
        if i.kind == "skip": c.on_path("G08.children", p, False, "a constituent has no place in the tree", f); continue
        ok = None if w is None else w == "all" and how2 == "all" or w == how2 == "reversed" and False
        c.on_path("G08.children", p, ok, "the subtrees of a node are not in the order of its rule, or some are left out", f)
        tr = i.val
        c.on_path("G08.subtrees", p, True if call_named(tr, "create_trees_for_state") and T("item", s, idx(L3)) in tr[4] and tr[4][0] == chart else False if is_t(tr, "slice") or is_t(tr, "list") else None, "a child of a node is not a tree of that constituent, or some of its trees are left out", f)


def _exp_at(p, term, it):
    """expand a collection built inside the loop of item it"""
    from .spec import _exp
    if not (is_t(term, "list") or is_t(term, "mut")): return []
    return _exp(p.eng, term[2:] if is_t(term, "list") else term[3:], {**p.st.loops, **it.loops}, (), dict(it.facts))


# ---------------------------------------------------------------- G09
def equality(c, p, key, parts, f, what):
    """an equality test: true exactly when all parts are; parts: {name: [atoms that state it]}"""
    facts = dict(p.facts); v = p.v; outs = []
    if is_t(v, "bool"): outs = [(True, {**facts, v[2]: v[3]}), (False, {**facts, v[2]: not v[3]})]
    elif is_k(v): outs = [(bool(kv(v)), facts)]
    elif is_t(v, "allof") or is_t(v, "and"): outs = []
    elif v[0] == "t":
        d = p.dec(("truthy", v)); outs = [(t, {**facts, ("truthy", v): t}) for t in ((True, False) if d is None else (d,))]
    if not outs: c.on_path(key, p, None, "", f); return
    for t, fa in outs:
        st = {n: next((r for a in atoms for r in [p.eng.decide(fstate(fa), a)] if r is not None), None) for n, atoms in parts.items()}
        if t:
            lack = [n for n, r in st.items() if r is not True]
            # something else is compared in a way that is not understood
            rest = [a for a, w in fa.items() if not any(a in atoms for atoms in parts.values()) and a[0] in ("eq", "truthy", "in", "lt")]
            vague = [a for a in rest if any(is_t(x, "call") or x == ("t", "list") or is_t(x, "list") for y in a[1:] if isinstance(y, tuple) for x in subterms(y))]
            c.on_path(key, p, not lack if not (lack and vague) or any(any(p.eng.decide(fstate(fa), a) is False for a in parts[n]) for n in lack) else None, f"{what} with another {' or '.join(lack)} count as the same", f)
        else:
            ok = any(r is False for r in st.values())
            c.on_path(key, p, ok or (None if not all(r is True for r in st.values()) else False), f"equal {what} count as different", f)


def lists_equal(p, a_, b_, field=None):
    """atoms that state that two lists (or the fields of their elements) are equal, as the path has them"""
    out = [norm_eq(a_, b_)]
    for at in list(p.facts) + ([p.v[2]] if is_t(p.v, "bool") else []):
        if at[0] == "eq":
            xs = [list_map(p, x) for x in at[1:]]
            if None not in xs and {x[0] for x in xs} == {a_, b_} and xs[0][1] == xs[1][1] == field: out.append(at)
    return out


def joined(p, v):
    """[(single value,) | (source list, field)] of [x] + [y.field for y in source], or None"""
    v = strip_copy(v); out = []
    its = p.seq(v) if is_t(v, "list") else None
    for it in its or []:
        if it.kind == "one" and not it.chain: out.append((it.val,)); continue
        if it.kind != "one" or len(it.chain) != 1: return None
        L = it.chain[0][0]; S0, how = strip_seq(dom_of(p.eng, L))
        if how != "all" or p.st.loops.get(L, ("all",))[0] != "all": return None
        x = it.val; e0 = T("item", S0, idx(L))
        if x == e0: out.append((S0, None))
        elif is_t(x, "attr") and x[2] == e0: out.append((S0, x[3]))
        else: return None
    return out or None


def joins_equal(p, want):
    """atoms that state that two lists are equal, one part of which is `want`: (value, value) or (source, source, field)"""
    out = []
    for at in list(p.facts) + ([p.v[2]] if is_t(p.v, "bool") else []):
        if at[0] != "eq": continue
        a, b = joined(p, at[1]), joined(p, at[2])
        if not a or not b or len(a) != len(b) or sum(len(x) == 2 for x in a) != 1: continue
        for x, y in zip(a, b):
            if len(x) != len(y): break
            if len(x) == 1 and len(want) == 2 and {x[0], y[0]} == set(want): out.append(at)
            if len(x) == 2 and len(want) == 3 and {x[0], y[0]} == set(want[:2]) and x[1] == y[1] == want[2]: out.append(at)
    return out


def list_map(p, v):
    """(source list, field) of [x.field for x in source]"""
    v = strip_copy(v)
    its = p.seq(v) if is_t(v, "list") else []
    if len(its) != 1 or len(its[0].chain) != 1 or its[0].kind != "one": return None
    L = its[0].chain[0][0]; S0, how = strip_seq(dom_of(p.eng, L))
    if how != "all" or p.st.loops.get(L, ("all",))[0] != "all": return None
    x = its[0].val; e0 = T("item", S0, idx(L))
    if x == e0: return S0, None
    if is_t(x, "attr") and x[2] == e0: return S0, x[3]
    return None


@spec("G09", least=40)
def G09(c):
    O = lambda f: param(f.params[1])
    # chart entries
    f = c.prog.method("ChartState", "__eq__"); o = O(f); n = 0
    meaning = "has_same_meaning"
    for p in c.method("ChartState", "__eq__", opaque={"equals", meaning, "is_terminal"}):
        if p.raises: continue
        n += 1
        rules = [a for a in p.facts if a[0] == "truthy" and call_named(a[1], "equals")] + [norm_eq(attr(SELF, "rule"), attr(o, "rule"))]
        if is_t(p.v, "bool") and p.v[2][0] == "truthy" and call_named(p.v[2][1], "equals"): rules.append(p.v[2])
        if call_named(p.v, "equals"): rules.append(("truthy", p.v))
        term = next((t for a, t in p.facts.items() if a[0] == "truthy" and call_named(a[1], "is_terminal")), None)
        mean = [a for a in list(p.facts) + ([p.v[2]] if is_t(p.v, "bool") else []) + [("truthy", p.v)] if a[0] == "truthy" and call_named(a[1], meaning)] + [norm_eq(attr(SELF, "rule"), attr(o, "rule"))]
        parts = {"rule": rules, "progress": [norm_eq(attr(SELF, "dot_position"), attr(o, "dot_position"))], "start": [norm_eq(attr(SELF, "start_char_index"), attr(o, "start_char_index"))], "end": [norm_eq(attr(SELF, "end_char_index"), attr(o, "end_char_index"))]}
        if not term: parts["meaning"] = mean
        equality(c, p, "G09.entry-equality", parts, f, "entries")
    for p in c.method("ChartState", "__hash__"):
        if p.raises: continue
        fh = c.prog.method("ChartState", "__hash__"); ok = hash_of(p.v, {attr(SELF, "rule", "hash"), attr(SELF, "dot_position"), attr(SELF, "start_char_index"), attr(SELF, "end_char_index")})
        c.on_path("G09.entry-hash", p, ok, "the hash of an entry depends on something else than what makes entries equal", fh)
    # rules
    f = c.prog.method("GrammarRule", "equals"); o = O(f)
    for p in c.method("GrammarRule", "equals", opaque={"equals"}):
        if p.raises: continue
        ant = [a for a in p.facts if a[0] == "truthy" and call_named(a[1], "equals") and {a[1][3], a[1][4][0]} == {attr(SELF, "antecedent"), attr(o, "antecedent")}]
        if call_named(p.v, "equals") and attr(SELF, "antecedent") in (p.v[3],) + p.v[4]: ant.append(("truthy", p.v))
        A, B = attr(SELF, "consequents"), attr(o, "consequents")
        ln = [norm_eq(T("len", A), T("len", B))]
        # every pair compared
        pair = None
        for x, ch, fa in p.calls("equals"):
            if len(ch) == 1:
                L = ch[0][0]; w = covers(p, L, A) or covers(p, L, B); a1 = T("item", A, idx(L)); b1 = T("item", B, idx(L))
                if {x.recv, x.args[0]} == {a1, b1}:
                    alts = p.eng.loops[L].alts
                    if w == "all" and all(p.eng.decide(fstate(al.facts), ("truthy", x.result)) for al in alts): pair = True
        neg = any(a[0] == "truthy" and not t and call_named(a[1], "equals") and any(contains(a[1], q) for q in (A, B)) for a, t in p.facts.items())
        parts = {"antecedent": ant, "number of constituents": ln}
        if p.v == TRUE:
            lack = [n_ for n_, at in parts.items() if not any(p.dec(a) for a in at)]
            c.on_path("G09.rule-equality", p, not lack and bool(pair) if lack or pair or not p.imprecise else None, f"rules with another {' or '.join(lack) or 'constituent'} count as the same", f)
        elif p.v == FALSE or is_t(p.v, "call") and p.dec(("truthy", p.v)) is False: c.on_path("G09.rule-equality", p, neg or any(p.dec(a) is False for at in parts.values() for a in at) or None, "equal rules count as different", f)
        else: c.on_path("G09.rule-equality", p, None, "", f)
    f = c.prog.method("RuleConstituent", "equals"); o = O(f)
    for p in c.method("RuleConstituent", "equals"):
        if p.raises: continue
        equality(c, p, "G09.constituent-equality", {"category": [norm_eq(attr(SELF, "predicate"), attr(o, "predicate"))], "number of arguments": [norm_eq(T("len", attr(SELF, "arguments")), T("len", attr(o, "arguments"))), norm_eq(attr(SELF, "arguments"), attr(o, "arguments"))], "type": [norm_eq(attr(SELF, "position_type"), attr(o, "position_type"))]}, f, "constituents")
    f = c.prog.method("GrammarRule", meaning)
    if f is not None:
        o = O(f); A, B = attr(SELF, "consequents"), attr(o, "consequents")
        for p in c.method("GrammarRule", meaning):
            if p.raises: continue
            parts = {x: [norm_eq(attr(SELF, x), attr(o, x))] for x in ("sem", "exec", "dialog", "boost")}
            parts["antecedent's variables"] = [norm_eq(attr(SELF, "antecedent", "arguments"), attr(o, "antecedent", "arguments"))] + joins_equal(p, (attr(SELF, "antecedent", "arguments"), attr(o, "antecedent", "arguments")))
            parts["constituents' variables"] = lists_equal(p, A, B, "arguments") + joins_equal(p, (A, B, "arguments"))
            equality(c, p, "G09.meaning-equality", parts, f, "rules")
    hashes(c)
    collection(c)
    worklist(c)
    processing(c)


def hash_of(v, allowed):
    """v is a hash of allowed values only"""
    if is_t(v, "call") and v[2] == "hash" or is_t(v, "hash"):
        x = v[4][0] if is_t(v, "call") else v[2]
        leaves = list(x[1:]) if x[0] == "tup" else [x]
        bad = [y for y in leaves if y not in allowed and not is_k(y)]
        if not bad: return True
        if all(is_t(y, "attr") or is_t(y, "call") and y[2] in ("id",) or y == SELF for y in bad): return False
        return None
    if is_t(v, "bin"):
        r = [hash_of(x, allowed) if not (is_k(x) or x in allowed) else True for x in v[3:5]]
        return True if all(r) else None
    if is_k(v) or v in allowed: return True
    if is_t(v, "call") and v[2] == "id": return False
    return None


def hashes(c):
    # the hash of a constituent and of a rule: only of what is compared
    e = c.machine(); cl = c.prog.cls("RuleConstituent"); init = cl.find("__init__")
    ps = [e.param(x, None) for x in init.params[1:]]
    for s, v in e.construct(State(), cl.qual, ps, {}, None):
        if is_exc(v): continue
        h = s.fields.get((v, "hash"))
        if h is None: continue
        h = e.freeze(s, h)
        free = {x[2] for x in subterms(h) if is_t(x, "param")}
        bad = free & {"optional", "separator"} | ({"id"} if any(is_t(x, "call") and x[2] == "id" for x in subterms(h)) else set())
        p = Path(e, s, "return", v)
        c.on_path("G09.constituent-hash", p, not bad, "the hash of a constituent depends on what equal constituents differ in", init)
    f = c.prog.method("GrammarRule", "update_hash")
    for p in c.method("GrammarRule", "update_hash"):
        h = p.st.fields.get((SELF, "hash"))
        if h is None: c.on_path("G09.rule-hash", p, None if p.imprecise else False, "the hash of a rule is not updated", f); continue
        h = p.eng.freeze(p.st, h)
        bad = [x for x in deep_terms(p, h) if is_t(x, "attr") and x[2] == SELF and x[3] not in ("consequents", "antecedent") or is_t(x, "call") and x[2] == "id"]
        c.on_path("G09.rule-hash", p, not bad, "the hash of a rule depends on what equal rules differ in", f)
        own = any(is_t(x, "attr") and x[3] == "hash" for x in deep_terms(p, h))
    # a rule that gets other constituents gets their hash
    f = c.prog.method("GrammarRules", "create_rule_variants"); rule = param(f.params[1])
    for p in c.method("GrammarRules", "create_rule_variants", opaque={"create_rule_variants_rest"}):
        if p.raises: continue
        for it in p.seq():
            if it.kind != "one" or not is_t(it.val, "new"): continue
            cons, h = new_field(it.val, "consequents"), new_field(it.val, "hash")
            if cons is None: continue
            ok = None if h is None and ("base", rule) not in it.val[3:] else h is not None and not contains(h, attr(rule, "hash")) and not contains(h, attr(rule, "consequents"))
            c.on_path("G09.variant-hash", p, ok, "a variant of a rule keeps the hash of the rule it was made from", f)


def deep_terms(p, v):
    yield from subterms(v)
    for x in list(subterms(v)):
        if x[0] == "acc" or is_t(x, "list"):
            for i in p.seq(x if is_t(x, "list") else T("list", x)):
                if i.val is not None: yield from subterms(i.val)
                for L, _ in i.chain: yield from subterms(dom_of(p.eng, L))


def collection(c):
    f = c.prog.method("Chart", "enqueue"); st, pos = param(f.params[1]), param(f.params[2]); dest = item_(attr(SELF, "states"), pos); n = 0
    for p in c.method("Chart", "enqueue"):
        if p.raises: continue
        n += 1
        there = p.dec(("in", st, dest))
        o = p.st.heap.get(dest)
        adds = [e for e, ch, fa in p.events() if e.kind in ("mutate", "put") and e.d.get("target") is not None]
        wrong = [e for e in adds if nc(e.d["target"]) != nc(dest)]
        right = [e for e in adds if nc(e.d["target"]) == nc(dest) and e.d.get("args", ())[:1] == (st,)]
        gone = [e for e in adds if e.d.get("name") in ("clear", "discard", "remove", "pop")]
        if gone: c.on_path("G09.enqueue", p, False, "entries are removed from the chart", f); continue
        if there: c.on_path("G09.enqueue", p, not wrong or None, "", f)
        else: c.on_path("G09.enqueue", p, bool(right) if right or not adds and not p.imprecise or wrong else None, "an entry that is not there yet is not added at its position", f)
    c.ob("G09.enqueue-found", True if n else None, c.where(f), "entries are added to the chart")
    # the set of entries: keeps what is added, answers membership by equality, keeps the order of insertion
    if any(x.name == "OrderedSet" for x in c.prog.classes.values()) if hasattr(c.prog, "classes") and isinstance(c.prog.classes, dict) else True:
        D = attr(SELF, "_d")
        from .specs_cross import set_add, contained
        set_add(c, "G09.set-add", D)
        fo = c.prog.method("OrderedSet", "__contains__"); x = param(fo.params[1])
        for p in c.method("OrderedSet", "__contains__"):
            if p.raises: continue
            ok = is_t(p.v, "call") and p.v[2] == "__contains__" and p.v[3] == D and p.v[4] == (x,) or p.v == atom_val(("in", x, D)) or is_k(p.v) and p.dec(("in", x, D)) == kv(p.v)
            c.on_path("G09.set-contains", p, contained(p, ok, D), "membership is not decided by equality with an element", fo)


def worklist(c):
    """every entry of every position is processed, also entries that are added while the position is being processed"""
    f = c.prog.method("EarleyParser", "buildChart"); g, text = param(f.params[1]), param(f.params[2])
    NAMES = ("predict", "scan", "complete"); n = 0; seeds = 0
    for p in c.method("EarleyParser", "buildChart", opaque={"predict", "scan", "complete", "enqueue", "is_complete"}):
        if p.raises: c.on_path("G09.raises", p, False if p.v[3] == "explicit" else None, "", f); continue
        evs = [x for x in p.events("call") if x[0].d.get("name") in NAMES]
        chart = p.v
        byalt = {}
        for e, ch, fa in evs:
            if len(ch) != 2: c.on_path("G09.worklist", p, None, "", f); continue
            byalt.setdefault(ch[0][0], {}).setdefault(ch[1][0], set()).add(ch[1][1])
        for L1, inner in byalt.items():
            d = p.eng.loops[L1].dom
            ok = d in (T("range", K(0), T("bin", "+", T("len", text), K(1)), K(1)),) or is_t(d, "enumerate") and d[2] == attr_of(chart, "states") or d == attr_of(chart, "states")
            part = is_t(d, "range") and d != T("range", K(0), T("bin", "+", T("len", text), K(1)), K(1)) and contains(d, T("len", text)) or p.st.loops.get(L1, ("all",))[0] != "all"
            c.on_path("G09.positions", p, True if ok and not part else False if part else None, "not every position of the text is processed, from first to last", f)
            for L2, _ in inner.items():
                lp = p.eng.loops[L2]
                for i, a in enumerate(lp.alts):
                    n += 1
                    comp = next((t for at, t in a.facts.items() if at[0] == "truthy" and call_named(at[1], "is_complete")), None)
                    called = {e.d.get("name"): e for e in a.trace if e.kind == "call" and e.d.get("name") in NAMES}
                    if comp is None: c.on_path("G09.process", p, None, "", f); continue
                    if comp: c.on_path("G09.process", p, "complete" in called, "a complete entry is not used to continue others", f)
                    else:
                        c.on_path("G09.process", p, "predict" in called, "an incomplete entry's next constituent is not expected", f)
                        end = Path(p.eng, fstate(a.facts), "return", NONE).cmp("ge", idx(L1), T("len", text))
                        c.on_path("G09.process", p, True if "scan" in called or end else False if end is False else None if not any(at[0] == "lt" for at in a.facts) else False, "the text is not read for an incomplete entry", f)
                    for nm, e in called.items():
                        c.on_path("G09.process-entry", p, is_t(e.args[-1], "item") and e.args[-1][3] == idx(L2) and e.args[-1][2] == T("item", e.args[-1][2][2], idx(L1)) if is_t(e.args[-1], "item") and is_t(e.args[-1][2], "item") else None, "another entry is processed", f)
                if lp.exits: c.on_path("G09.worklist-exit", p, None if any(has_unk(a) for x in lp.exits for a in x.facts) else False, "processing a position stops before its last entry", f)
        # where it starts
        for L, (mode, al) in p.st.loops.items():
            d = p.eng.loops[L].dom
            while is_t(d, "keys") or is_t(d, "listof") or is_t(d, "sorted"): d = d[2]
            if contains(d, g) and mode == "prefix" and not contains(d, T("call",)): c.on_path("G09.seeds", p, False, "not every form of the root category is tried", f)
        for e, ch, fa, st, position in enqueued(p):
            ant = new_field(new_field(st, "rule"), "antecedent") if new_field(st, "rule") is not None else None
            at = (new_field(st, "dot_position"), new_field(st, "start_char_index"), new_field(st, "end_char_index"), position)
            c.on_path("G09.seed", p, at == (K(1), K(0), K(0), K(0)) if all(x is not None and is_k(x) for x in at) else None, "the parse does not start at the start of the text", f)
            if ch:
                seeds += 1; L = ch[0][0]; d = p.eng.loops[L].dom
                cs = p.seq(new_field(new_field(st, "rule"), "consequents")) if new_field(st, "rule") is not None and new_field(new_field(st, "rule"), "consequents") is not None else None
                if cs and len(cs) == 1 and is_t(cs[0].val, "new"):
                    av = new_field(cs[0].val, "arguments"); number = T("item", strip_seq(d)[0], idx(L))
                    if is_t(av, "list"):
                        vs = p.seq(av)
                        if vs and len(vs) == 1 and len(vs[0].chain) >= 1 and vs[0].kind == "one":
                            r = p.eng.loops[vs[0].chain[-1][0]].dom
                            if is_t(r, "range") and is_k(r[2]) and (r[4] == K(1)):
                                b_, k_ = plus(r[3]); ok = None
                                if b_ == number or is_t(b_, "item") and b_[3] == idx(L): ok = k_ - kv(r[2]) == 0
                                c.on_path("G09.seed-arguments", p, ok, "a sentence is not looked for with the number of arguments that its rules have", f)
                while is_t(d, "keys") or is_t(d, "listof") or is_t(d, "sorted"): d = d[2]
                c.on_path("G09.seeds", p, None if not contains(d, g) else not is_t(d, "slice") and p.st.loops.get(L, ("all",))[0] == "all" and every_alt(p, L, "enqueue"), "not every form of the root category is tried", f)
    c.ob("G09.worklist-found", True if n else None, c.where(f), "entries are processed")
    c.ob("G09.seeds-found", True if seeds else None, c.where(f), "every form of the root category is tried")
    growing(c, f, NAMES)


def attr_of(v, name):
    x = new_field(v, name) if is_t(v, "new") else None
    return x if x is not None else attr(v, name)


def growing(c, f, names):
    """the loop that processes entries sees the entries that processing adds"""
    par = {}
    for x in ast.walk(f.node):
        for y in ast.iter_child_nodes(x): par[y] = x
    loops_ = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in names:
            y = x
            while y in par and not isinstance(y, (ast.For, ast.While)): y = par[y]
            if isinstance(y, (ast.For, ast.While)): loops_.add(y)
    if not loops_: c.ob("G09.grows", None, c.where(f), "the loop over the entries of a position is elsewhere"); return
    for lp in loops_:
        if isinstance(lp, ast.For):
            it = lp.iter; snap = any(isinstance(z, ast.Call) and (getattr(z.func, "id", None) in ("list", "tuple", "sorted", "set", "range", "reversed") or getattr(z.func, "attr", None) == "copy") for z in ast.walk(it)) or isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) or isinstance(it, (ast.ListComp, ast.Starred, ast.List))
            c.ob("G09.grows", False if snap else None, c.where(f, lp.lineno), "entries that are found while a position is processed are not processed"); continue
        calls = [z for z in ast.walk(lp.test) if isinstance(z, ast.Call)]
        if calls or isinstance(lp.test, ast.Constant): c.ob("G09.grows", True, c.where(f, lp.lineno), "the number of entries is looked up again for every entry"); continue
        nm = {z.id for z in ast.walk(lp.test) if isinstance(z, ast.Name)}
        stored = lambda body: {z.id for b in body for z in ast.walk(b) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}
        bound = {}
        for z in ast.walk(f.node):
            if isinstance(z, ast.Assign) and isinstance(z.value, ast.Call) and getattr(z.value.func, "id", None) == "len":
                for t in z.targets:
                    if isinstance(t, ast.Name): bound.setdefault(t.id, []).append(z)
        stale = [x for x in nm if x in bound and not any(z in list(ast.walk(lp)) for z in bound[x]) and x not in stored(lp.body)]
        c.ob("G09.grows", False if stale else None, c.where(f, lp.lineno), "entries that are found while a position is processed are not processed")


def processing(c):
    """an entry leads to every entry that follows from it"""
    f = c.prog.method("EarleyParser", "predict"); g, chart, state = (param(x) for x in f.params[1:4]); n = 0
    for p in c.method("EarleyParser", "predict", opaque={"find_rules", "enqueue"}):
        if p.raises: continue
        fr = [e.result for e, ch, fa in p.calls("find_rules")]
        eq = list(enqueued(p))
        if not fr: c.on_path("G09.predict-all", p, None if p.imprecise else False, "the rules of an expected category are not looked up", f); continue
        if not eq: c.on_path("G09.predict-all", p, True if empty_on(p, fr[0]) else fixed_number(p, T("list"), fr[0]), "the rules of an expected category are not tried", f); continue
        for e, ch, fa, st, position in eq:
            n += 1
            if not ch: c.on_path("G09.predict-all", p, fixed_number(p, T("list"), fr[0]), "not every rule of the expected category is tried", f); continue
            L = ch[0][0]; w = covers(p, L, fr[0])
            c.on_path("G09.predict-all", p, None if w is None else w != "part" and every_alt(p, L, "enqueue"), "not every rule of the expected category is tried", f)
            r = new_field(st, "rule")
            if w and r is not None: c.on_path("G09.predict-rule", p, r == T("item", fr[0], idx(L)), "another rule is tried", f)
    c.ob("G09.predict-found", True if n else None, c.where(f), "rules are tried")
    f = c.prog.method("EarleyParser", "complete"); chart, done = param(f.params[1]), param(f.params[2]); n = 0
    src = T("item", attr(chart, "states"), attr(done, "start_char_index"))
    for p in c.method("EarleyParser", "complete", opaque={"enqueue", "index_completed_state"}):
        if p.raises: continue
        for L, (mode, al) in p.st.loops.items():
            w = covers(p, L, src)
            if w is None: continue
            if w == "part": c.on_path("G09.complete-all", p, False, "not every waiting entry is continued", f)
            for i, a in enumerate(p.eng.loops[L].alts):
                if al is not None and i not in al: continue
                n += 1
                old = T("item", src, idx(L)); dot = attr(old, "dot_position"); cons = attr(old, "rule", "consequents"); ant = attr(done, "rule", "antecedent")
                if any(e.kind == "call" and e.d.get("name") == "enqueue" for e in a.trace): continue
                q = Path(p.eng, fstate(a.facts), "return", NONE)
                nx = T("item", cons, T("bin", "+", dot, K(-1)))
                why = [q.cmp("gt", dot, T("len", cons)), not_(q.dec(norm_eq(attr(nx, "predicate"), attr(ant, "predicate")))), not_(q.dec(norm_eq(attr(nx, "position_type"), attr(ant, "position_type")))), not_(q.dec(norm_eq(T("len", attr(nx, "arguments")), T("len", attr(ant, "arguments")))))]
                why += [True for at, t in a.facts.items() if at[0] == "eq" and t and set(at[1:]) == {old, done}]      # the completed entry waits for nothing
                why += [True for at, t in a.facts.items() if at[0] == "truthy" and (call_named(at[1], "equals") and not t or call_named(at[1], "is_complete") and t)]
                c.on_path("G09.complete-all", p, True in why or (None if has_opaque(a.facts) else False), "an entry that waits for the completed constituent is not continued", f)
    c.ob("G09.complete-found", True if n else None, c.where(f), "waiting entries are continued")
    f = c.prog.method("EarleyParser", "scan"); chart, state = param(f.params[1]), param(f.params[2])
    nxt = T("item", attr(state, "rule", "consequents"), T("bin", "+", attr(state, "dot_position"), K(-1))); ty = attr(nxt, "position_type")
    for p in c.method("EarleyParser", "scan", opaque={"perform_regexp", "read_word", "enqueue", "create_semantic_function_for_scanned_state"}):
        if p.raises: continue
        eq = list(enqueued(p))
        if p.dec(norm_eq(K("word-form"), ty)):
            r = [e.result for e, ch, fa in p.calls("read_word")]
            if r and p.dec(("truthy", r[0])): c.on_path("G09.scan-all", p, bool(eq), "a literal that was found is not entered", f)
            elif not r: c.on_path("G09.scan-all", p, None if p.imprecise else False, "a literal is not looked for", f)
        if p.dec(norm_eq(K("reg-exp"), ty)):
            r = [e.result for e, ch, fa in p.calls("perform_regexp")]
            if not r: c.on_path("G09.scan-all", p, None if p.imprecise else False, "a regular expression is not matched", f); continue
            if p.dec(("isnone", r[0])) is not False or p.dec(("truthy", r[0])) is False: continue
            c.on_path("G09.scan-all", p, bool(eq) or None, "what a regular expression matched is not entered", f)
            for e, ch, fa, st, position in eq:
                if len(ch) != 1: continue
                L = ch[0][0]; d = p.eng.loops[L].dom
                full = d in (T("range", K(1), T("bin", "+", T("len", r[0]), K(1)), K(1)),) or d == T("range", K(1), T("bin", "+", K(1), T("len", r[0])), K(1))
                if is_t(d, "range") and contains(d, T("len", r[0])): 
                    hi = d[3]; b, k = plus(hi)
                    if b == T("len", r[0]) and k < 1: c.on_path("G09.scan-all", p, False if len(eq) == 1 else None, "the whole match of a regular expression is not entered", f)
                    elif full: c.on_path("G09.scan-all", p, p.st.loops.get(L, ("all",))[0] == "all", "not every part of a match is tried", f)
                    elif b == T("len", r[0]) and is_k(d[2]): c.on_path("G09.scan-all", p, False if kv(d[2]) > 1 else None, "not every part of a match is tried", f)
                if is_t(d, "range") and contains(d, T("len", r[0])):
                    e_ = new_field(st, "end_char_index")
                    if e_ is not None and not contains(e_, idx(L)): c.on_path("G09.scan-all", p, False, "the parts of a match are tried, but another text is entered", f)
                for a in p.eng.loops[L].alts:
                    if any(x.kind == "call" and x.d.get("name") == "enqueue" for x in a.trace): continue
                    tried = [at for at in a.facts if any(is_t(x, "call") and "match" in x[2].split(".")[-1] and x != r[0] for x in subterms(at))]
                    c.on_path("G09.scan-parts", p, bool(tried) or False, "a part of a match is not tried", f)


def not_(x): return None if x is None else not x


def has_opaque(facts): return any(is_t(x, "call") and x[2] not in ("equals", "is_complete", "len") for a in facts for x in subterms(a))
