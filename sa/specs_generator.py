"""W01-W03: generating output."""
from .spec import *
from .specs_grammar import nc
from .specs_pipeline import lin, is_call, EMPTY

SELF = param("self"); BUF = attr(SELF, "output_buffer"); CAT = param("antecedent_cat"); VALS = param("antecedent_values")
G = "BasicGenerator"


# ---------------------------------------------------------------- W01
def cleared(e):
    if e.kind == "call" and e.d.get("name") == "clear" and e.d.get("recv") == BUF: return True
    return False


@spec("W01", least=6)
def W01(c):
    f = c.prog.method(G, "generate_output"); n = 0
    for p in c.method(G, "generate_output", opaque={"generate_node", "clear"}):
        evs = list(p.events()); gen = [i for i, (e, ch, fa) in enumerate(evs) if e.kind == "call" and e.d.get("name") == "generate_node"]
        clr = [i for i, (e, ch, fa) in enumerate(evs) if cleared(e)]
        if not gen:
            c.on_path("W01.generates", p, None if p.imprecise else False, "no output is generated from the buffer", f); continue
        n += 1
        if p.raises and p.v[3] == "explicit": c.on_path("W01.raises", p, None, "generating output raises an error by itself", f)
        how = "when generation fails with an error" if p.raises else "after generating"
        c.on_path("W01.cleared", p, bool(clr) and max(clr) > max(gen), f"the output buffer is not emptied {how}", f)
        c.on_path("W01.not-before", p, not any(i < max(gen) for i in clr), "the output buffer is emptied before the output is generated from it", f)
        c.on_path("W01.once", p, len(gen) == 1, "output is generated more than once", f)
        e = evs[gen[0]][0]; a = e.d["args"]
        c.on_path("W01.root", p, (p.eng.freeze(p.st, a[0]) == T("list") and a[1] == K("s") and p.eng.freeze(p.st, a[2]) in (T("list"), ("tup",))) if len(a) >= 3 else None, "generating does not start at the sentence category with no rules used", f)
        if p.returns: c.on_path("W01.returned", p, p.v == e.result, "the returned text is not what was generated", f)
    c.ob("W01.found", True if n >= 1 else None, c.where(f), "generate_output analysed")
    f = c.prog.method("System", "read_output")
    for p in c.method("System", "read_output", opaque={"generate_output"}):
        if p.raises: continue
        c.on_path("W01.read", p, is_call(p.v, "generate_output", attr(SELF, "output_generator")), "reading the output does not return what the generator generated", f)
    # emptying the buffer empties it
    f = c.prog.method("BasicOutputBuffer", "clear")
    for p in c.method("BasicOutputBuffer", "clear"):
        if p.raises: continue
        s = [e for e, ch, fa in p.events("setattr") if e.d["name"] == "data_source" and e.d["base"] == SELF]
        k = [e for e, ch, fa in p.calls("clear") if e.d.get("recv") == attr(SELF, "data_source")]
        st = [e for e, ch, fa in p.events("setattr") if e.d["name"] == "store" and e.d["base"] == attr(SELF, "data_source")]
        v = p.eng.freeze(p.st, s[-1].d.get("raw", s[-1].d["value"])) if s else None
        for e, ch, fa in p.events("put"):
            was = any(x == attr(SELF, "data_source") for x in subterms(e.d["value"])) if isinstance(e.d["value"], tuple) else False
            coll = [x[2] for x in subterms(e.d["value"]) if is_t(x, "acc")] if isinstance(e.d["value"], tuple) else []
            vals = [i.val for i in (p.seq(p.eng.freeze(p.st, e.d["value"])) or []) if i.kind == "one"] if isinstance(e.d["value"], tuple) else []
            if was or any(contains(x, attr(SELF, "data_source")) for x in vals): c.on_path("W01.empties", p, False, "clearing the output buffer keeps some of the old output", f)
        if v is not None:
            store = new_field(v, "store")
            c.on_path("W01.empties", p, (True if store == T("dict") else None if is_t(store, "dict") and all(x[0] == "put" and x[2] == T("list") for x in store[2:]) else False) if store is not None else (True if is_t(v, "new") else False if v in (NONE, attr(SELF, "data_source")) else None), "clearing the output buffer does not give it an empty data source", f)
        elif k or st: c.on_path("W01.empties", p, True if k or p.eng.freeze(p.st, st[-1].d["value"]) == T("dict") else None, "clearing the output buffer does not empty it", f)
        else: c.on_path("W01.empties", p, False if not p.imprecise else None, "clearing the output buffer does not empty it", f)
    for m in ("__init__", "clear"):
        f = c.prog.method("SimpleDataSource", m)
        for p in c.method("SimpleDataSource", m):
            s = [e for e, ch, fa in p.events("setattr") if e.d["name"] == "store" and e.d["base"] == SELF]
            mu = [e for e, ch, fa in p.events("mutate") if e.d.get("target") == attr(SELF, "store")]
            v = p.eng.freeze(p.st, s[-1].d["value"]) if s else None
            c.on_path("W01.empty-store", p, (v == T("dict")) if s else None if mu else False, "an emptied data source is not empty", f)


# ---------------------------------------------------------------- W02
def rules_of(p):
    return [e.result for e, ch, fa in p.calls("find_rules")]


def initial_binding(p, b, R):
    """b maps each antecedent argument of R to the given value at the same position"""
    b = strip_copy(b)
    its = p.seq(b)
    if its is None: return None
    if is_call(b, "dict") and is_t(b[4][0] if b[4] else NONE, "zip"):
        z = b[4][0]; return list(z[2:4]) == [attr(R, "antecedent", "arguments"), VALS]
    its = [i for i in its if i.kind != "skip"]
    if not its: return False if b == T("dict") else None
    for it in its:
        if it.kind != "put" or len(it.chain) < 1: return None
        i = idx(it.chain[-1][0])
        k = it.key; v = it.val
        A = attr(R, "antecedent", "arguments")
        if not (is_t(k, "item") and k[2] == A): return False if k[0] == "k" or is_t(k, "item") and (k[2] == VALS or contains(k[2], A)) else None
        if not (is_t(v, "item") and v[2] == VALS): return False
        if k[3] != v[3]: return False
        if any(is_t(x, "slice") or is_t(x, "range") and len(x) > 3 and is_k(x[2]) and x[2] != K(0) for x in subterms(dom_of(p.eng, it.chain[-1][0]))): return False
    return True


def match_of(p, q, R, b):
    """is b the binding of a match of rule R? True/False/None, under facts of q"""
    sem = attr(R, "sem"); cond = q.dec(("truthy", sem))
    b = strip_copy(b)
    if is_t(b, "item") and is_call(b[2], "solve"):
        call = b[2]
        if call[4][0] != sem: return False
        if b[3] != K(0): return False if is_k(b[3]) else None
        return initial_binding(p, call[4][1], R) if len(call[4]) > 1 else False
    if is_t(b, "dict") or is_call(b, "dict"):
        if cond is True: return False
        ini = initial_binding(p, b, R)
        if cond is None and ini:
            # the condition was not looked at at all
            return None if any(contains(a, sem) for a in q.facts) else False
        return ini
    return None


def matched(p, q, R, calls):
    """does rule R match on q: True/False/None"""
    sem = attr(R, "sem"); cond = q.dec(("truthy", sem))
    if cond is False: return True
    for s in calls:
        d = q.dec(("truthy", s))
        if d is None:
            d = q.dec(norm_eq(T("len", s), K(0))); d = None if d is None else not d
        if d is not None: return d
    return None


def no_binding(facts):
    """solutions are bindings: a path on which a solution is None does not exist"""
    return any(a[0] == "isnone" and t and is_t(a[1], "item") and is_call(a[1][2], "solve") for a, t in facts.items())


def shared(e, used):
    """the list of used rules itself is handed on, not a copy of it"""
    xs = list(e.d["args"]); raw = list(e.d.get("raw") or ())
    for x, r in zip(xs, raw):
        if x == used or is_t(x, "mut") and x[2] == used: return False if r[0] == "ref" else True
    if used in e.d["kwargs"].values(): return True
    return False if any(contains(x, used) for x in xs) else None


def used_key(q, R, used):
    """(key, truth) of the test whether R has been used"""
    for a, t in q.facts.items():
        if a[0] == "in" and a[2] == used and contains(a[1], R): return a[1], t
        if a[0] == "in" and contains(a[1], R) and contains(a[2], used): return a[1], t
    return None


@spec("W02", least=12)
def W02(c):
    f = c.prog.method(G, "find_rule"); used = param("used_rules"); n = 0; keys = set()
    for p in c.method(G, "find_rule", opaque={"find_rules", "solve"}):
        rl = rules_of(p)
        if p.raises: c.on_path("W02.raises", p, None if p.v[3] != "explicit" else False, "choosing a rule raises an error", f); continue
        if len(rl) != 1: c.on_path("W02.candidates", p, None, "the rules that are considered are not understood", f); continue
        rules = rl[0]
        c.on_path("W02.candidates", p, list(rules[4]) == [CAT, T("len", VALS)], "the rules that are considered are not those of the category with the number of values", f)
        loops = [L for L in p.st.loops if covers(p, L, rules)]
        if len(loops) != 1: c.on_path("W02.order", p, None, "the order in which rules are considered is not understood", f); continue
        L = loops[0]; lp = p.eng.loops[L]; how = covers(p, L, rules); d, hw = strip_seq(lp.dom)
        c.on_path("W02.order", p, hw == "all", "not every rule of the category is considered, in order", f)
        R = T("item", rules, idx(L)); n += 1
        def solves(tr): return [e.result for e, ch, fa in walk_trace(p.eng, tr, {}, (), {}, "call", "solve", True)]
        comps = list(p.v[1:]) if p.v[0] == "tup" else [p.v]
        mode, al = p.st.loops[L]
        # turns after which the search goes on
        for i, a in enumerate(lp.alts):
            if al is not None and i not in al: continue
            if no_binding(a.facts): continue
            q = Path(p.eng, fstate(a.facts), "return", NONE); m = matched(p, q, R, solves(a.trace)); u = used_key(q, R, used)
            if u: keys.add(nc(subst_rule(u[0], R)))
            if m is True: c.on_path("W02.unused-first", p, True if u and u[1] is True else False if u else False, "a rule that matches and has not been used is passed over", f)
            ups = {k: v for k, v in a.next.items() if not (is_t(v, "phi") and v[2] == L and v[3] == k)}
            rk = [k for k, v in ups.items() if v == R]
            bv = [v for k, v in ups.items() if is_binding(v)]
            if m is None and not rk and any(contains(x, T("len", s_)) for x in a.facts for s_ in solves(a.trace)): c.on_path("W02.unused-first", p, False, "a rule that matches is passed over", f)
            flags = [k for k in ups if lp.phi_init.get(k) == K(False) and ups[k] == K(True)]
            for x in comps:
                if not (is_t(x, "phi") and x[2] == L and lp.phi_init.get(x[3]) == K(False)): continue
                if m is True and rk: c.on_path("W02.flag", p, x[3] in flags, "a rule that is chosen is not reported as found", f)
                if m is False: c.on_path("W02.flag", p, x[3] not in flags, "a rule is reported as found though none matched", f)
            if m is False: c.on_path("W02.condition-holds", p, not rk, "a rule whose condition does not hold is chosen", f)
            if rk and not bv and m is not False and len(comps) > 1: c.on_path("W02.own-match", p, False if fallback_binding(p, L, comps) else None, "a rule is remembered without its own match", f)
            for v in bv:
                if not rk and m is not True: c.on_path("W02.own-match", p, False if fallback_binding(p, L, comps) and m is False else None, "the match of a rule that is not chosen is kept", f); continue
                if rk: c.on_path("W02.own-match", p, match_of(p, q, R, v), "a rule is remembered with values that are not those of its own match", f)
        # this path
        direct = [x for x in comps if x == R]
        q = p
        for x in comps:
            if direct and x == K(False): c.on_path("W02.flag", p, False, "a rule that is chosen is not reported as found", f)
            if not direct and x == K(True) and mode == "all": c.on_path("W02.flag", p, False, "a rule is reported as found though none matched", f)
            if not direct and is_t(x, "phi") and x[2] == L and lp.phi_init.get(x[3]) == K(True): c.on_path("W02.flag", p, False, "a rule is reported as found though none matched", f)
            if not direct and x == K(False) and any(is_t(y, "phi") and y[2] == L and any(a.next.get(y[3]) == R for a in lp.alts) for y in comps): c.on_path("W02.flag", p, False, "a rule that is chosen is not reported as found", f)
        if direct:
            m = matched(p, q, R, solves([e for e in p.st.trace])); u = used_key(q, R, used)
            if u: keys.add(nc(subst_rule(u[0], R)))
            c.on_path("W02.condition-holds", p, m, "a rule whose condition does not hold is chosen", f)
            c.on_path("W02.unused-first", p, (u[1] is False) if u else False, "a rule is chosen at once although it has been used already", f)
            bs = [x for x in comps if is_binding(x)]
            for b in bs: c.on_path("W02.own-match", p, match_of(p, q, R, b), "the rule is not used with the values of its own match", f)
            if not bs: c.on_path("W02.own-match", p, None if not any(is_t(x, "phi") and x[2] == L for x in comps) else False if fallback_binding(p, L, comps) else None, "the rule is not used with the values of its own match", f)
        else:
            ph = [x for x in comps if is_t(x, "phi") and x[2] == L and any(a.next.get(x[3]) == R for a in lp.alts)]
            rp = [x for x in comps if is_t(x, "phi") and x[2] == L]
            if not ph and mode == "all" and any(matched(p, Path(p.eng, fstate(a.facts), "return", NONE), R, solves(a.trace)) is True for a in lp.alts) and not rp:
                c.on_path("W02.reused", p, False if all(x in (NONE, K(False)) or is_t(x, "dict") for x in comps) and not has_other(p, L) else None, "when all rules have been used none of them is used again", f)
            # left the loop without choosing the rule of this turn
            if mode == "prefix":
                m = matched(p, q, R, solves([e for e in p.st.trace]))
                c.on_path("W02.stops", p, False if m is not None else None, "the search ends at a rule that is not chosen", f)
        c.on_path("W02.found", p, True, "a way of choosing a rule", f)
    c.ob("W02.found-paths", True if n >= 2 else None, c.where(f), "find_rule analysed")
    # what counts as used
    f = c.prog.method(G, "generate_node")
    for p in c.method(G, "generate_node", opaque={"find_rule", "generate_single_consequent", "get_consequent_values"}):
        evs = list(p.events())
        fr = [e for e, ch, fa in p.calls("find_rule")]
        if not fr: c.on_path("W02.find", p, None, "the rule that is generated is not understood", f); continue
        c.on_path("W02.find", p, list(fr[0].d["args"]) == [used, CAT, VALS], "the rule is not sought with the used rules, the category and its values", f)
        gi = [i for i, (e, ch, fa) in enumerate(evs) if e.kind == "call" and e.d.get("name") == "generate_single_consequent"]
        mi = [(i, e) for i, (e, ch, fa) in enumerate(evs) if e.kind == "mutate" and e.d.get("target") == used]
        for i in gi: c.on_path("W02.shared", p, shared(evs[i][0], used), "the rules that are used for a part are not remembered for the parts after it", f)
        if gi:
            c.on_path("W02.marked", p, True if mi and mi[0][0] < gi[0] else False if not p.imprecise or not mi else None, "a rule is not marked as used before its parts are generated", f)
            for i, e in mi:
                a = e.d["args"][0] if e.d.get("args") else None
                if a is None: continue
                k = nc(key_form(a, fr[0].result))
                c.on_path("W02.marked-same", p, (k in keys) if keys and k is not None else None, "what is marked as used is not what is looked up", f)
        elif mi: c.on_path("W02.marked", p, True, "", f)
    g = c.prog.method(G, "generate_single_consequent")
    if "used_rules" in g.params:
        for p in c.method(G, "generate_single_consequent", opaque={"generate_node"}):
            for e, ch, fa in p.calls("generate_node"): c.on_path("W02.shared", p, shared(e, used), "the rules that are used for a part are not remembered for the parts after it", g)
    w = c.where(f)
    for k in keys:
        c.ob("W02.key", True if k == ("rule",) else False if k == ("rule", "hash") else None, w, "rules of the same form but with another condition count as the same rule: the test for used rules must tell all rules apart")


def is_binding(v):
    v = strip_copy(v)
    return is_t(v, "dict") or is_t(v, "item") and is_call(v[2], "solve") or is_call(v, "dict")


def fallback_binding(p, L, comps):
    """one of the results is a variable that carries a binding over turns"""
    lp = p.eng.loops[L]
    return any(is_t(x, "phi") and x[2] == L and (is_binding(lp.phi_init.get(x[3], NONE)) or any(is_binding(a.next.get(x[3], NONE)) for a in lp.alts)) for x in comps)


def has_other(p, L):
    return len(p.st.loops) > 1


def subst_rule(k, R):
    if k == R: return ("rule",)
    if is_t(k, "attr") and k[2] == R: return ("rule", k[3])
    if is_call(k, "id") and k[4] and k[4][0] == R: return ("rule",)
    return ("other",)


def key_form(a, fr):
    """form of what is marked as used, with the chosen rule as 'rule'"""
    base = lambda v: v == fr or is_t(v, "item") and v[2] == fr
    if base(a): return ("rule",)
    if is_t(a, "attr") and base(a[2]): return ("rule", a[3])
    if is_call(a, "id") and a[4] and base(a[4][0]): return ("rule",)
    return None


# ---------------------------------------------------------------- W03
@spec("W03", least=20)
def W03(c):
    f = c.prog.method(G, "generate_node"); n = 0; opt = param("optional"); used = param("used_rules")
    for p in c.method(G, "generate_node", opaque={"find_rule", "generate_single_consequent", "get_consequent_values"}):
        fr = [e.result for e, ch, fa in p.calls("find_rule")]
        if len(fr) != 1: c.on_path("W03.rule", p, None, "the rule that is generated is not understood", f); continue
        fr = fr[0]; found = found_fact(p, fr)
        if found is None: c.on_path("W03.rule", p, False if not p.imprecise and p.dec(("truthy", fr)) is None else None, "whether there is a rule is not looked at", f); continue
        n += 1
        if not found:
            o = p.dec(("truthy", opt))
            if p.raises:
                c.on_path("W03.missing", p, False if o is True else True if o is False else False, "an error is raised for an optional part", f)
                if p.msg() is not None: c.on_path("W03.names", p, contains(p.msg(), CAT), "the error does not name the part for which there is no rule", f)
            else:
                c.on_path("W03.missing", p, True if o is True else False, "a required part for which there is no rule is left out without an error", f)
                if o is True: c.on_path("W03.optional-empty", p, True if p.v == EMPTY or nothing(p) else False if is_k(p.v) else None, "an optional part without a rule is not left out", f)
            continue
        if p.raises: c.on_path("W03.raises", p, False if p.v[3] == "explicit" else None, "an error is raised although there is a rule", f); continue
        parts(c, p, f, fr, used)
    c.ob("W03.found", True if n >= 3 else None, c.where(f), "generate_node analysed")
    single(c)
    values(c)


def found_fact(p, fr):
    for a, t in p.facts.items():
        if a[0] == "truthy" and is_t(a[1], "item") and a[1][2] == fr and a[1][3] == K(2): return t
    for a, t in p.facts.items():
        if a[0] == "isnone" and (a[1] == fr or is_t(a[1], "item") and a[1][2] == fr and a[1][3] == K(0)): return not t
    for a, t in p.facts.items():
        if a[0] == "truthy" and (a[1] == fr or is_t(a[1], "item") and a[1][2] == fr and a[1][3] == K(0)): return t
    return None


def nothing(p):
    v = p.v
    if is_call(v, "post"): v = v[4][0]
    return v == EMPTY or v == T("list")


def parts(c, p, f, fr, used):
    R = T("item", fr, K(0)); cons = attr(R, "consequents"); B = T("item", fr, K(1))
    # the list of results
    v = p.v; post = attr(R, "post"); pd = p.dec(("truthy", post))
    if pd is None: pd = p.dec(("isnone", post)); pd = None if pd is None else not pd
    if is_call(v, "post", R) or is_t(v, "call") and v[2] == "post":
        c.on_path("W03.post", p, True if v[3] == R and pd is not False else False, "post-processing is not that of the rule", f)
        v = v[4][0]
    else: c.on_path("W03.post", p, False if pd is True else True if pd is False or p.dec(("truthy", R)) is False else False, "post-processing is not applied to the result", f)
    words = v; form = "list"
    if is_call(v, "join"):
        c.on_path("W03.joined", p, v[3] == EMPTY, "something is put between the parts", f)
        words = v[4][0]; form = "join"
    elif is_t(v, "join"): words = v[3]; form = "join"; c.on_path("W03.joined", p, v[2] == EMPTY, "something is put between the parts", f)
    elif is_t(v, "item"):
        words = v[2]; form = "one"
        if v[3] != K(0): c.on_path("W03.single", p, None, "the result is not understood", f); return
        one = p.dec(norm_eq(T("len", words), K(1)))
        if one is None: one = p.dec(norm_eq(T("len", cons), K(1)))
        c.on_path("W03.single", p, True if one is True else False, "the result of one part is taken for that of all parts", f)
    elif v == EMPTY and p.dec(("truthy", cons)) is False: return
    its = p.seq(words)
    if its is None: c.on_path("W03.parts", p, None, f"the result is not understood: {show(v)[:100]}", f); return
    if not its: c.on_path("W03.parts", p, True if p.dec(("truthy", cons)) is False else None if p.imprecise else False, "no part of the rule is rendered", f); return
    per = {}
    for it in its:
        if len(it.chain) != 1: c.on_path("W03.parts", p, None, "the way parts are collected is not understood", f); continue
        L = it.chain[0][0]; how = covers(p, L, cons)
        if how is None: c.on_path("W03.parts", p, None, "the parts that are rendered are not understood", f); continue
        c.on_path("W03.order", p, how == "all", "not all parts are rendered, in order", f)
        if it.kind == "skip": c.on_path("W03.parts", p, False, "a part is left out", f); continue
        if it.kind != "one": c.on_path("W03.parts", p, None, "the way parts are collected is not understood", f); continue
        per[it.chain[0]] = per.get(it.chain[0], 0) + 1
        C = T("item", cons, idx(L)); x = it.val
        if is_call(x, "generate_single_consequent", SELF):
            sig = c.prog.method(G, "generate_single_consequent").params[1:]
            a = dict(zip(sig, x[4])); a.update(dict(x[5] or ()))
            want = dict(rule=R, category=attr(C, "predicate"), position_type=attr(C, "position_type"), optional=attr(C, "optional"))
            for k, w in want.items():
                if k in sig: c.on_path("W03.own-part", p, a.get(k) == w, f"a part is rendered with the {k} of something else", f)
            if "used_rules" in sig: c.on_path("W03.used", p, a.get("used_rules") is not None and (a["used_rules"] == used or contains(a["used_rules"], used)), "parts are rendered without the rules used so far", f)
            vs = a.get("values")
            if vs is not None:
                if is_call(vs, "get_consequent_values", SELF): c.on_path("W03.own-values", p, list(vs[4]) == [R, idx(L), B], "a part is not rendered with its own values from the rule's match", f)
                else: c.on_path("W03.own-values", p, False if is_t(vs, "param") else None, "the values of a part are not understood: they are not those from the rule's match", f)
        else: c.on_path("W03.own-part", p, None if not is_k(x) else False, f"the rendering of a part is not understood: {show(x)[:100]}", f)
    c.on_path("W03.parts", p, all(k == 1 for k in per.values()), "a part is rendered more than once", f)
    for L in {it.chain[0][0] for it in its if it.chain}:
        if any(x.ctl[0] != "raise" for x in p.eng.loops[L].exits): c.on_path("W03.parts", p, False, "rendering stops before the last part", f)


def single(c):
    f = c.prog.method(G, "generate_single_consequent"); n = 0
    cat = param("category"); vals = param("values"); pt = param("position_type"); opt = param("optional"); rule = param("rule"); used = param("used_rules")
    if not {"category", "values", "position_type"} <= set(f.params): c.ob("W03.kinds", None, c.where(f), "parameters have other names"); return
    v0 = T("item", vals, K(0))
    seen = set()
    for p in c.method(G, "generate_single_consequent", opaque={"generate_node"}):
        if p.raises: c.on_path("W03.kinds", p, None if p.v[3] != "explicit" else False, "rendering a part raises an error", f); continue
        n += 1
        word = p.dec(norm_eq(pt, K("word-form")))
        kind = None
        if word is True: kind = "word"
        else:
            for k in ("value", "text", "format"):
                if p.dec(norm_eq(cat, K(k))) is True: kind = k
            if kind is None and all(p.dec(norm_eq(cat, K(k))) is False for k in ("value", "text", "format")): kind = "other"
            if kind and word is None:
                c.on_path("W03.literal-first", p, False, "literal text may be taken for a value or a category", f)
        if kind is None:
            # what may this path be?
            poss = [k for k in ("value", "text", "format") if p.dec(norm_eq(cat, K(k))) is not False] + ["other"]
            if word is None: poss.append("word")
            forms = [k for k in poss if form_ok(k, p, cat, vals, v0, rule, used, opt)]
            c.on_path("W03.kinds", p, False if len(forms) < len(poss) else True, "a kind of part is not rendered by its own rule", f); continue
        seen.add(kind)
        c.on_path("W03." + kind, p, form_ok(kind, p, cat, vals, v0, rule, used, opt), {"word": "literal text is not rendered as it is", "value": "a value is not rendered as it is", "text": "text is not rendered as a string of its value",
                  "format": "a formatted part is not rendered by the rule's format function with its values", "other": "another part is not generated from its category with its own values"}[kind], f)
    c.ob("W03.kinds-found", True if n else None, c.where(f), "generate_single_consequent analysed")


def form_ok(kind, p, cat, vals, v0, rule, used, opt):
    v = p.v
    if kind == "word": return v == cat
    if kind == "value": return v == v0
    if kind == "text": return v == T("str", v0) or is_call(v, "str") and v[4][0] == v0 or is_t(v, "fstr") and v[2:] == (v0,)
    if kind == "format": return is_t(v, "call") and v[2] == "exec" and v[3] == rule and len(v[4]) == 1 and v[4][0] in (("starunk", vals), ("*", vals))
    if kind == "other":
        if not is_call(v, "generate_node", SELF): return False
        a = list(v[4]) + [x for k, x in (v[5] or ())]
        return a == [used, cat, vals, opt]
    return None


def values(c):
    f = c.prog.method(G, "get_consequent_values")
    if not {"rule", "i", "binding"} <= set(f.params): c.ob("W03.values", None, c.where(f), "parameters have other names"); return
    C = T("item", attr(param("rule"), "consequents"), param("i")); args = attr(C, "arguments"); B = param("binding"); n = 0
    for p in c.method(G, "get_consequent_values"):
        if p.raises: continue
        its = p.seq()
        if its is None: c.on_path("W03.values", p, None, "the values of a part are not understood", f); continue
        lit = p.dec(norm_eq(attr(C, "position_type"), K("word-form")))
        for it in its:
            if len(it.chain) != 1: c.on_path("W03.values", p, None, "the values of a part are not understood", f); continue
            L = it.chain[0][0]; lp = p.eng.loops[L]
            A = T("item", args, idx(L))
            dom_ok = covers(p, L, args) == "all" or lp.dom == T("range", K(0), T("len", args), K(1))
            if not dom_ok:
                if contains(lp.dom, args): c.on_path("W03.values", p, False, "not every argument of a part gets its value, in order", f)
                else: c.on_path("W03.values", p, None, "the values of a part are not understood", f)
                continue
            n += 1
            if it.kind == "skip": c.on_path("W03.values", p, False, "an argument of a part gets no value", f); continue
            q = Path(p.eng, fstate(it.facts), "return", NONE)
            l2 = q.dec(norm_eq(attr(C, "position_type"), K("word-form"))); l2 = lit if l2 is None else l2
            has = q.dec(("in", A, B))
            if l2 is True: continue
            own = it.val == T("item", B, A) or is_call(it.val, "get", B) and it.val[4][0] == A
            if own and is_call(it.val, "get", B): c.on_path("W03.values", p, True, "", f); continue
            if has is True: c.on_path("W03.values", p, own, "an argument of a part does not get its own value", f)
            elif has is False: c.on_path("W03.values", p, it.val in (EMPTY, NONE) or None, "an unbound argument gets a value", f)
            else: c.on_path("W03.values", p, None if own else False, "an argument of a part does not get its own value", f)
    c.ob("W03.values-found", True if n else None, c.where(f), "get_consequent_values analysed")
