"""I01-I03, I05: the inference module."""
from .spec import *
from .specs_builtin import V, CTX, BIND, ARGS, rows, terms, done_once

IM = "InferenceModule"
SELF = param("self")
RULES = attr(SELF, "rules")


def final(p, t): return p.eng.freeze(p.st, t)


def inst_of(facts, v, name):
    for a, t in facts.items():
        if a[0] == "isinst" and a[1] == v and a[2].split(".")[-1] == name: return t
    return None


# ---------------------------------------------------------------- I01
@spec("I01", least=8)
def I01(c):
    f = c.prog.method(IM, "handle_rule")
    mine = item(RULES, attr(CTX, "relation", "predicate"))
    for p in c.method(IM, "handle_rule", opaque={"solve_rule"}):
        if p.raises: continue
        its = p.seq()
        found = 0
        if any(i.kind in ("unknown", "setat") for i in its): c.on_path("I01.all-rules", p, None, "results are collected in a way that is not understood", f); continue
        for it in its:
            if not it.chain: c.on_path("I01.all-rules", p, None, "results not collected per rule", f); continue
            L = it.chain[0][0]; how = covers(p, L, mine)
            if how is None: c.on_path("I01.all-rules", p, None, "the rules that are tried are not understood", f); continue
            found += 1
            c.on_path("I01.order", p, how in ("all", "part"), "the rules are not tried in the order in which they were added", f)
            c.on_path("I01.all-rules", p, how != "part", "not every rule of the predicate is tried", f)
            if how != "all": continue
            rule = T("item", mine, idx(L))
            if it.kind == "skip":
                calls = [e for e, ch, fa in p.calls("solve_rule") if ch[:1] == it.chain[:1]]
                c.on_path("I01.keeps", p, False if calls or not any(contains(a, T("call",)) for a in it.facts) else None, "the solutions of a rule are dropped", f); continue
            if is_t(it.val, "call") and it.val[2] == "solve_rule":
                a = it.val[4]
                if it.kind != "spread": c.on_path("I01.keeps", p, False, "the solutions of a rule are not added one by one", f); continue
                c.on_path("I01.own-rule", p, bool(a) and a[0] == rule, "the rule that is solved is not the rule of this turn", f)
                c.on_path("I01.context", p, True if ARGS in a and BIND in a and attr(CTX, "solver") in a else None, "the rule is not solved with the arguments and binding of the atom", f)
        if not found: c.on_path("I01.all-rules", p, False if p.v == T("list") and not p.imprecise else None, "the rules of the predicate are not tried", f)
        elif not any(i.kind != "skip" for i in its): c.on_path("I01.keeps", p, False, "the solutions of the rules are dropped", f)
    # adding a rule
    f = c.prog.method(IM, "insert_rule")
    rule = param("rule"); pred = item(attr(rule, "head"), 0)
    n = 0
    for p in c.method(IM, "insert_rule"):
        if p.raises: continue
        n += 1
        known = p.dec(("in", pred, RULES))
        cases_ = [known] if known is not None else [True, False]
        now = p.eng.freeze(p.st, RULES)
        o = p.st.heap.get(RULES)
        segs = list(o.segs) if o is not None else [("base", RULES)]
        puts = [s for s in segs if s[0] == "put"]
        own = p.st.heap.get(item_t(RULES, pred))
        if any(s[0] not in ("base", "put") for s in segs) or not segs or segs[0] != ("base", RULES):
            c.on_path("I01.adds", p, False if segs and segs[0] != ("base", RULES) else None, "adding a rule loses the rules of other predicates", f); continue
        if any(s[1] != pred for s in puts): c.on_path("I01.own-predicate", p, False if all(s[1] != pred for s in puts) and own is None else None, "a rule is added under another predicate than that of its head", f); continue
        for k in cases_:
            if puts: v = p.eng.freeze(p.st, puts[-1][2])
            elif own is not None: v = p.eng.freeze(p.st, item_t(RULES, pred))
            else:
                c.on_path("I01.adds", p, False, "adding a rule does not add it to the rules of its predicate", f); continue
            its = _strip_base(p, v)
            if its is None and k is not False:
                xs = p.seq(v); old = item_t(RULES, pred)
                drops = [x for x in xs or [] if x.chain and dom_of(p.eng, x.chain[0][0]) == old and (x.kind == "skip" or x.loops and any(m[0] == "prefix" for m in x.loops.values()))] + [x for x in subterms(v) if is_t(x, "slice", "set", "oset") and contains(x, old)]
                if drops: c.on_path("I01.adds", p, False, "adding a rule drops earlier rules of its predicate", f); continue
            if its is None and k is not False and is_t(v, "mut") and v[2] == item_t(RULES, pred) and any(g[0] in ("rem", "del", "delat", "clear") for g in v[3:]):
                c.on_path("I01.adds", p, False, "adding a rule removes or moves an earlier rule of its predicate", f); continue
            if its is None: c.on_path("I01.adds", p, None, f"new rule list not understood: {show(v)[:200]}", f); continue
            old = item_t(RULES, pred)
            want = [("rule", rule)] if k is False else [("old", old), ("rule", rule)]
            got = [("old", x) if x == old or is_t(x, "call") and x[2] in ("setdefault", "get") and contains(x, RULES) else ("rule", x) for x in its]
            if k is False: got = [g for g in got if g[0] == "rule"] if any(is_t(x, "call") for x in its) else got
            else: got = [("old", old) if g[0] == "old" else g for g in got]
            c.on_path("I01.adds", p, got == want, "the rules of the predicate are not the earlier rules followed by the new one", f)
        rel = [e for e, ch, fa in p.events() if e.kind == "put" and e.d.get("key") == pred and is_t(e.d.get("target"), "attr") and e.d["target"][3] == "relations"]
        reln = [e for e, ch, fa in p.events("new") if e.d.get("name") == "Relation"]
        okrel = bool(rel) or any(e for e, ch, fa in p.calls("add_relation")) or (True in cases_ and False not in cases_)
        c.on_path("I01.available", p, okrel, "no relation is offered for the predicate of an added rule", f)
        for e in rel:
            q = e.d["value"]; q = p.eng.freeze(p.st, q)
            fn = new_field(q, "query_function")
            if fn is not None: c.on_path("I01.handler", p, True if fn[0] == "bound" or fn[0] == "bm" else False if fn == NONE else None, "the relation of an added rule has no query function", f)
    c.ob("I01.insert-found", True if n else None, c.where(f), "insert_rule analysed")
    importing(c, "I01")


def importing(c, pid):
    """import_rules: a parse failure is raised, and every rule that was read is added"""
    f = c.prog.method(IM, "import_rules")
    n = 0
    for p in c.method(IM, "import_rules", opaque={"parse", "insert_rule"}):
        ps = [e for e, ch, fa in p.calls("parse")]
        if not ps: c.on_path(pid + ".import", p, None, "the rule file is not parsed in a way that is understood", f); continue
        res = T("item", ps[0].result, K(0)); pos = T("item", ps[0].result, K(1))
        failed = p.dec(("isnone", pos))
        ins = p.calls("insert_rule")
        if failed is None and p.returns:
            tests = [a for a, t in p.facts.items() if contains(a, pos) or a[0] in ("isnone", "truthy", "eq") and contains(a, res)]
            c.on_path(pid + ".import-failure", p, False if not tests or p.dec(("truthy", pos)) is False and all(a == ("truthy", pos) for a in tests if contains(a, pos)) else None, "a parse failure of a rule file (at any position, the first included) is not reported", f)
        if failed is False:
            c.on_path(pid + ".import-failure", p, p.raises and not ins, "a parse failure of a rule file is not reported, or rules are added before it is", f); continue
        if p.raises: continue
        if not ins: c.on_path(pid + ".import", p, False if not p.imprecise else None, "the rules of a file are not added", f); continue
        for e, ch, fa in ins:
            n += 1
            how = covers(p, ch[0][0], res) if len(ch) == 1 else None
            if how != "all": c.on_path(pid + ".import", p, False if how else None, "not every rule of the file is added, in order", f); continue
            L = ch[0][0]
            c.on_path(pid + ".import", p, e.args[0] == T("item", res, idx(L)), "the rules of a file are not added one by one in order", f)
            al = p.st.loops.get(L, ("all", None))[1]
            for j in range(len(p.eng.loops[L].alts)):
                if (al is None or j in al) and not any(ch2[0] == (L, j) for _, ch2, _ in ins): c.on_path(pid + ".import", p, False, "a rule of the file is skipped", f)
    c.ob(pid + ".import-found", True if n else None, c.where(f), "import_rules adds rules")


def item_t(b, i): return T("item", b, i)


def _strip_base(p, v):
    """list value -> [old list terms and elements in order]"""
    if is_t(v, "mut"):
        out = []
        for s in v[3:]:
            if s[0] == "base": out.append(v[2]); continue
            if s[0] == "one": out.append(s[1])
            else: return None
        return out
    if is_t(v, "list"):
        out = []
        for s in v[2:]:
            if s[0] == "one": out.append(s[1])
            elif s[0] in ("spread", "base"): out.append(s[1])
            else: return None
        return out
    if is_t(v, "bin") and v[2] == "+":
        a = _strip_base(p, v[3]); b = _strip_base(p, v[4])
        return a + b if a is not None and b is not None else None
    if is_t(v, "item") or is_t(v, "call"): return [v]
    return None


# ---------------------------------------------------------------- I02 / I03
def solve_rule_paths(c):
    e = c.machine({"get_all_variables", "get_atoms_variables", "get_atom_variables"})
    return c.method(IM, "solve_rule", engine=e), c.prog.method(IM, "solve_rule")


RULE = param("rule"); HEAD = attr(RULE, "head"); BODY = attr(RULE, "body"); RARGS = param("arguments"); RBIND = param("binding")


def head_arg(L): return T("item", HEAD, T("bin", "+", idx(L), K(1)))


def rule_loops(p):
    """loops of the path over the head's arguments and the atom's arguments together"""
    out = []
    for L, (mode, al) in p.st.loops.items():
        lp = p.eng.loops.get(L)
        if lp is None: continue
        if any(x == RARGS for x in lp.seqs or [lp.dom]) or contains(lp.dom, RARGS) and not contains(lp.dom, T("call",)): out.append(L)
    return out


def arg_value(facts, arg, binding):
    """(kind, value) of the atom's argument: 'unbound', or 'value' with its term; None unknown"""
    v = inst_of(facts, arg, "Variable")
    if v is None: return None, None
    if not v: return "value", arg
    name = T("attr", arg, "name"); b = facts.get(("in", name, binding))
    if b is None: return None, None
    if not b: return "unbound", None
    val = T("item", binding, name)
    if inst_of(facts, val, "Variable"): return "unbound", None
    return "value", val


def rule_binding_problems(c, p, d, f, key):
    """d: dict given as binding of the body (or used as the solution of a fact): only own variables have values, and only from the arguments"""
    if not is_t(d, "dict"):
        c.on_path(key, p, False if strip_copy(d) == RBIND else None, "a rule is solved under the binding of the calling query", f); return
    for it in p.seq(d):
        if it.kind == "skip": continue
        if it.kind == "update":
            c.on_path(key, p, False if it.val == RBIND else None, "a rule is solved under the binding of the calling query: its variables may be captured", f); continue
        if it.kind != "put": c.on_path(key, p, None, "", f); continue
        k = it.key
        own = [x for x in subterms(k) if x == HEAD]
        if own:
            L = next((x[2] for x in subterms(k) if is_t(x, "idx")), None)
            arg = T("item", RARGS, idx(L)) if L is not None else None
            if k != T("attr", head_arg(L), "name"): c.on_path(key + ".own", p, None, "key of the rule binding not understood", f); continue
            kind, val = arg_value(it.facts, arg, RBIND)
            if it.val == val: c.on_path(key + ".own", p, True, "a head variable gets the value of the argument in its position", f)
            elif is_t(it.val, "item") and it.val[2] == RARGS or it.val in (arg,) or is_t(it.val, "item") and it.val[2] == RBIND:
                c.on_path(key + ".own", p, False, "a head variable gets a value that is not the (bound) value of the argument in its position", f)
            else: c.on_path(key + ".own", p, None, "value of a head variable not understood", f)
            continue
        if contains(k, RBIND):
            ok = any(a[0] == "in" and not t and a[1] == k and contains(a[2], RULE) for a, t in it.facts.items())
            if ok:
                # which part of the rule the names come from
                whole = set()
                for a, t in it.facts.items():
                    if not (a[0] == "in" and not t and a[1] == k and contains(a[2], RULE)): continue
                    hb = {x for x in (HEAD, BODY) if contains(a[2], x)}
                    calls_ = [x for x in subterms(a[2]) if is_t(x, "call") and (x[3] == RULE or RULE in x[4])]
                    whole |= {HEAD, BODY} if calls_ or not hb or is_t(a[2], "dict", "set", "oset", "list") and any(s[0] == "acc" for s in a[2][2:] if isinstance(s, tuple)) else hb
                if whole != {HEAD, BODY}:
                    c.on_path(key + ".captured", p, False, f"a variable of the calling query is visible in the rule although the {'body' if BODY not in whole else 'head'} of the rule may use the same name", f); continue
            notown = any(a[0] == "in" and a[1] == k and contains(a[2], RULE) for a, t in it.facts.items())
            c.on_path(key + ".captured", p, True if ok else False if notown or not any(a[0] == "in" for a in it.facts) else None, "a variable of the calling query is visible in the rule although the rule may use the same name", f)
            continue
        c.on_path(key + ".other", p, None, f"binding of {show(k)} not understood", f)


@spec("I02", least=6)
def I02(c):
    ps, f = solve_rule_paths(c)
    n = 0
    for p in ps:
        sol = p.calls("solve")
        for e, ch, fa in sol:
            n += 1
            b = e.args[1] if len(e.args) > 1 else e.kwargs.get("binding")
            if b is None: c.on_path("I02.binding", p, False, "the values of the arguments are not given to the rule", f); continue
            rule_binding_problems(c, p, b, f, "I02.binding")
        if p.returns and p.v != T("list"):
            for it in p.seq():
                if it.kind not in ("one",): continue
                row_values(c, p, it, f)
        muts = [ev for ev, ch, fa in p.events() if ev.kind in ("put", "mutate", "del") and ev.d.get("target") == RBIND]
        c.on_path("I02.query-binding", p, not muts, "the binding of the calling query is changed", f)
    c.ob("I02.found", True if n else None, c.where(f), "the body of a rule is solved")
    # all variables of the rule are considered
    m = c.prog.method("InferenceRule", "get_all_variables")
    for p in c.method("InferenceRule", "get_all_variables", opaque={"get_atoms_variables", "get_atom_variables"}):
        if not p.returns: continue
        txt = [x for x in subterms(p.v)]
        h, b = attr(SELF, "head"), attr(SELF, "body")
        all_ = list(_all_terms(p))
        hb = any(h in x[4] for x in all_ if is_t(x, "call")) or any(contains(x, h) for x in all_)
        bb = any(contains(x, b) for x in all_)
        c.on_path("I02.variables", p, True if hb and bb else False if not p.imprecise else None, "the variables of a rule do not include those of both head and body", m)
    collects_variables(c, "I02", "get_atoms_variables", "get_atom_variables")


def _all_terms(p):
    """terms of the value, loops it is collected in included"""
    yield from subterms(p.v)
    for it in p.seq():
        if it.val: yield from subterms(it.val)
        for L, i in it.chain: yield from subterms(p.eng.loops[L].dom)


def collects_variables(c, pid, atoms_f, atom_f):
    """get_atom_variables: the name of a variable, those of every element of a tuple or list, recursively"""
    f = c.prog.function(atom_f); x = param(f.params[0])
    n = 0
    for p in c.function(atom_f, opaque={atom_f}):
        if not p.returns: continue
        v = inst_of(p.facts, x, "Variable"); t = inst_of(p.facts, x, "tuple"); l = inst_of(p.facts, x, "list")
        its = [i for i in p.seq() if i.kind != "skip"]
        key = pid + ".collect"
        if v:
            n += 1
            c.on_path(key, p, True if [i.val for i in its] == [attr(x, "name")] else False if not its else None, "the name of a variable is not collected", f)
        elif t or l:
            n += 1
            rec = [e for e, ch, fa in p.calls(atom_f)]
            L = [ch[0][0] for e, ch, fa in p.calls(atom_f) if len(ch) >= 1]
            whole = [k for k in L if dom_of(p.eng, k) == x and p.st.loops.get(k, ("all", None))[0] == "all"]
            c.on_path(key, p, (True if its else False) if whole else False if any(is_t(dom_of(p.eng, k), "slice") for k in L) or not rec and not p.imprecise else None, "the variables of nested terms are not all collected", f)
        else:
            c.on_path(key, p, True if not (v is None and t is None) else None, "", f)
    c.ob(pid + ".collect-found", True if n >= 2 else None, c.where(f), "collection of variables analysed")
    # both tuples and lists are entered
    f2 = c.prog.function(atom_f)
    for nm in ("tuple", "list"):
        hit = False
        for p in c.function(atom_f, opaque={atom_f}):
            if p.returns and inst_of(p.facts, x, nm) and p.calls(atom_f): hit = True
            if p.returns and inst_of(p.facts, x, nm) is None and p.calls(atom_f): hit = True
        c.ob(pid + f".collect-{nm}", True if hit else False, c.where(f2), f"the variables inside a {nm} are not collected")
    f = c.prog.function(atoms_f); y = param(f.params[0])
    for p in c.function(atoms_f, opaque={atom_f}):
        if not p.returns: continue
        L = [ch[0][0] for e, ch, fa in p.calls(atom_f) if ch]
        ok = any(dom_of(p.eng, k) == y and p.st.loops.get(k, ("all", None))[0] == "all" for k in L) or any(e.args and e.args[0] == y for e, ch, fa in p.calls(atom_f))
        part = any(covers(p, k, y) == "part" for k in L)
        c.on_path(pid + ".collect-atoms", p, True if ok else False if part else None, "the variables of some of the atoms are not collected", f)


def row_values(c, p, it, f):
    """each value of a result row: the own rule variable's value, the head's constant, or the atom's constant"""
    row = it.val
    if not is_t(row, "list"): c.on_path("I02.row", p, None, "result row not understood", f); return
    for s in row[2:]:
        if s[0] != "acc": c.on_path("I02.row", p, None, "result row not understood", f); continue
        L = s[1]; lp = p.eng.loops[L]; mode, al = {**p.st.loops, **it.loops}.get(L, ("all", None))
        for i, a in enumerate(lp.alts):
            if al is not None and i not in al: continue
            em = a.emits.get(s[2], ())
            if len(em) != 1 or em[0][0] != "one": c.on_path("I02.row", p, None, "result row not understood", f); continue
            v = em[0][1]; arg = T("item", RARGS, idx(L)); h = head_arg(L)
            isv = inst_of(a.facts, arg, "Variable"); hv = inst_of(a.facts, h, "Variable")
            own = is_t(v, "item") and v[3] == T("attr", h, "name")
            if own or is_t(v, "call") and v[2] == "get" and T("attr", h, "name") in v[4]:
                src = v[2] if own else v[3]
                c.on_path("I02.row", p, False if src == RBIND else True if not hv is False else None, "a row takes the value of the query's variable instead of the rule's", f)
            elif v == h: c.on_path("I02.row", p, True if hv is False else (None if any(contains(x, h) for x in a.facts) else False) if hv is None else False, "a row holds a rule variable instead of its value", f)
            elif v == arg: c.on_path("I02.row", p, True if isv is False else False if isv or not any(contains(x, arg) for x in a.facts) else None, "a row holds the query's variable instead of a value", f)
            elif v == NONE: c.on_path("I02.row", p, False, "a row leaves open a value that the rule determines", f)
            elif is_t(v, "item") and (is_t(v[3], "attr") or v[2] == RARGS or v[2] == HEAD): c.on_path("I02.row", p, False, "a row takes the value of another position", f)
            else: c.on_path("I02.row", p, None, f"row value {show(v)[:80]} not understood", f)


@spec("I03", least=8)
def I03(c):
    ps, f = solve_rule_paths(c)
    n = 0
    for p in ps:
        if p.raises: continue
        none = p.v == T("list")
        early = [L for L in rule_loops(p) if p.st.loops[L][0] == "prefix"]
        if none:
            # a rule that gives nothing: there is a conflict in the head, or the body has no solutions
            ok = None
            if any(a[0] == "eq" and not t and all(is_t(x, "len") for x in a[1:]) for a, t in p.facts.items()): ok = True
            elif early:
                L = early[-1]
                ok = head_conflict(p, p.facts, L)
            elif any(p.dec(("truthy", e.result)) is False for e, ch, fa in p.calls("solve")): ok = True
            elif not p.imprecise: ok = False
            if any(m[0] == "prefix" and covers(p, L, e.result) for L, m in p.st.loops.items() for e, ch, fa in p.calls("solve")):
                c.on_path("I03.solutions", p, False, "the rows of the solutions found so far are dropped because of one later solution", f); continue
            c.on_path("I03.no-rows", p, ok, "a rule gives no rows although its head does not conflict with the atom", f)
            continue
        n += 1
        # the head matched: each argument pair was compared
        full = [L for L in rule_loops(p) if p.st.loops[L][0] == "all"]
        okpairs = None
        for L in full:
            r = match_loop(c, p, L)
            if r is None: continue
            okpairs = r if okpairs is None else okpairs or r
        c.on_path("I03.constants", p, okpairs, "a rule is applied although a constant of its head differs from the argument, or was not compared", f)
        rep = [repeated_ok(p, L) for L in full]
        rep = [r for r in rep if r is not None]
        giv = [given_ok(p, L) for L in full]; giv = [g for g in giv if g is not None]
        c.on_path("I03.values", p, None if not giv else any(giv), "a variable of the rule's head does not get the value of its argument", f)
        c.on_path("I03.repeated", p, None if not rep else any(rep), "a rule is applied although a variable that occurs twice in its head gets two values", f)
        body = p.dec(("truthy", BODY)); sol = p.calls("solve")
        if body is False: c.on_path("I03.fact", p, True if p.v != T("list") else False, "a rule without a body does not hold", f)
        elif body is True or sol:
            c.on_path("I03.body", p, True if any(e.args and e.args[0] == BODY for e, ch, fa in sol) else False if not sol or all(is_t(e.args[0], "slice") or is_t(e.args[0], "item") or is_t(e.args[0], "list") for e, ch, fa in sol if e.args) else None, "the body of a rule is not solved as a whole", f)
            for e, ch, fa in sol:
                d = [i for i in p.seq() if i.kind == "skip" and any(dom_of(p.eng, L) == e.result for L, _ in i.chain)]
                # a solution that has no value for a variable of the head gives no row
                d = [i for i in d if not any(a[0] == "in" and not t and is_t(a[1], "attr") and a[1][3] == "name" and contains(a[1], HEAD) and is_t(a[2], "item") and a[2][2] == e.result for a, t in i.facts.items())]
                tops = {i.chain[0][0] for i in p.seq() if i.chain}
                hows = [covers(p, L, e.result) for L in tops]; hows = [h for h in hows if h]
                c.on_path("I03.solutions", p, None if d or not hows else "part" not in hows, "not every solution of the body gives a row", f)
        elif body is None: c.on_path("I03.body", p, False if not p.imprecise else None, "a rule with a body is applied without its body being solved", f)
    c.ob("I03.found", True if n else None, c.where(f), "rules give rows")


def head_conflict(p, facts, L):
    """the facts of this turn show a conflict: unequal constants, or a variable with two values, or an unbound head variable"""
    arg = T("item", RARGS, idx(L)); h = head_arg(L)
    neq = [a for a, t in facts.items() if a[0] == "eq" and not t and any(contains(x, idx(L)) for x in a[1:])]
    hv = inst_of(facts, h, "Variable")
    if neq:
        for a in neq:
            x, y = a[1:]
            if h in (x, y) and hv is False:
                kind, val = arg_value(facts, arg, RBIND)
                return True if kind == "value" and val in (x, y) else None
            if any(is_t(z, "item") and z[3] == T("attr", h, "name") for z in (x, y)): return True
        return None
    unb = [a for a, t in facts.items() if a[0] == "in" and not t and a[1] == T("attr", h, "name")]
    if unb and inst_of(facts, arg, "Variable") is not False: return True
    return False if not any(a[0] == "eq" for a in facts) and not any(a[0] == "in" and contains(a, HEAD) for a in facts) else None


def match_loop(c, p, L):
    """this loop compares each constant of the head with the value in its position (True), lets a conflict pass (False), or is another loop (None)"""
    lp = p.eng.loops[L]; mode, al = p.st.loops[L]
    arg = T("item", RARGS, idx(L)); h = head_arg(L)
    if not any(inst_of(a.facts, h, "Variable") is not None for a in lp.alts): return None
    touched = any(a[0] == "eq" for x in list(lp.alts) + list(lp.exits) for a in x.facts)
    ok = True
    for i, a in enumerate(lp.alts):
        if al is not None and i not in al: continue
        if inst_of(a.facts, h, "Variable") is False:
            kind, val = arg_value(a.facts, arg, RBIND)
            if kind == "unbound": continue
            if kind is None:
                # argument not looked at: equal whatever it is?
                ok = False; continue
            if fact_entails(p.eng, a.facts, norm_eq(h, val)) is not True: ok = False
    return ok if touched or not ok else None


def given_ok(p, L):
    """every head variable whose argument has a value gets it (or is compared with the value it has)"""
    lp = p.eng.loops[L]; mode, al = p.st.loops[L]; h = head_arg(L); name = T("attr", h, "name"); arg = T("item", RARGS, idx(L))
    if not any(inst_of(a.facts, h, "Variable") for a in lp.alts): return None
    if not any(inst_of(a.facts, arg, "Variable") is not None for a in lp.alts): return None
    if L_builds_row(lp): return None
    good = True; seen = False
    for i, a in enumerate(lp.alts):
        if al is not None and i not in al or not inst_of(a.facts, h, "Variable"): continue
        kind, val = arg_value(a.facts, arg, RBIND)
        if kind != "value": continue
        seen = True
        put = any(g[0] == "put" and g[1] == name for em in a.emits.values() for g in em)
        had = any(x[0] == "eq" and t and any(is_t(y, "item") and y[3] == name for y in x[1:]) for x, t in a.facts.items())
        if not (put or had): good = False
    return good if seen else None


def L_builds_row(lp): return any(g[0] == "one" for a in lp.alts for em in a.emits.values() for g in em)


def repeated_ok(p, L):
    lp = p.eng.loops[L]; mode, al = p.st.loops[L]; h = head_arg(L); name = T("attr", h, "name")
    puts = 0; good = True
    for i, a in enumerate(lp.alts):
        if al is not None and i not in al: continue
        for o, em in a.emits.items():
            for g in em:
                if g[0] == "put" and g[1] == name:
                    puts += 1
                    fresh = any(x[0] == "in" and not t and x[1] == name for x, t in a.facts.items())
                    same = any(x[0] == "eq" and t and g[2] in x[1:] and any(is_t(y, "item") and y[3] == name for y in x[1:]) for x, t in a.facts.items())
                    if not (fresh or same): good = False
    return good if puts else None


# ---------------------------------------------------------------- I05
def unbound_part(v, src):
    """v is put together of parts, one of which is (a part of) src itself"""
    if is_t(v, "bin") and v[2] == "+": return unbound_part(v[3], src) or unbound_part(v[4], src)
    if is_t(v, "list"): return any(unbound_part(g[1], src) for g in v[2:] if g[0] in ("spread", "one"))
    while v != src and (is_t(v, "slice") or is_t(v, "item") and is_k(v[3])): v = v[2]
    return v == src


@spec("I05", least=5)
def I05(c):
    tab = relation_table(c, IM, c.machine({"bind_variables", "insert_rule"}))
    e, f, ps = run_handler(c, IM, "learn_rule", table=tab, width=2)
    bound = lambda i: T
    n = 0
    for p in ps:
        ins = p.calls("insert_rule")
        ist = p.dec(("isinst", V(0), "tuple"))
        if p.raises:
            c.on_path("I05.stores-nothing", p, not ins, "a rule is stored although learning it fails", f)
            if p.v[3] == "explicit": c.on_path("I05.accepts", p, None if ist is None else ist is False, "a head that is a single atom is refused", f)
            continue
        done_once(c, "I05.succeeds", p, 2, "learn_rule", f)
        c.on_path("I05.head", p, True if ist is True else False if ins else None, "a head that is not a single atom is stored", f)
        if not ins: c.on_path("I05.stores", p, False if not p.imprecise else None, "the learned rule is not stored", f); continue
        c.on_path("I05.once", p, len(ins) == 1 and not ins[0][1], "the learned rule is stored more than once", f)
        for ev, ch, fa in ins:
            n += 1
            r = ev.args[0]
            for fld, i in (("head", 0), ("body", 1)):
                v = new_field(r, fld)
                if v is None: c.on_path(f"I05.{fld}", p, None, "stored rule not understood", f); continue
                b = is_t(v, "call") and v[2] == "bind_variables"
                ok = True if b and v[4][0] == V(i) and len(v[4]) > 1 and v[4][1] == BIND else False if v in (V(0), V(1), NONE, T("list")) or b else None
                if ok is None and is_t(v, "list"): ok = each_bound(p, v, V(i))
                if ok is None and unbound_part(v, V(i)): ok = False
                c.on_path(f"I05.{fld}", p, ok, f"the {fld} of the learned rule is not the given {fld} with the bound variables replaced", f)
    from .specs_cross import bind_
    c.guard("I05.bind", "bind_variables", bind_, c, "I05")
    c.ob("I05.found", True if n else None, c.where(f), "learn_rule stores a rule")


def each_bound(p, v, src):
    its = p.seq(v)
    for it in its:
        if it.kind != "one" or len(it.chain) != 1 or dom_of(p.eng, it.chain[0][0]) != src: return None
        e = T("item", src, idx(it.chain[0][0]))
        if it.val == e: return False
        if not (is_t(it.val, "call") and it.val[2] == "bind_variables" and it.val[4][:2] == (e, BIND)): return None
    return True if its else None
