"""C01, C02, C05: composing the meaning of a sentence."""
from .spec import *
from .spec import _exp
from .specs_grammar import nc, rule_field, flat
from .specs_pipeline import is_call, selected, EMPTY

SELF = param("self"); NODE = param("node"); RULE = attr(NODE, "rule"); KIDS = attr(NODE, "children"); CONS = attr(RULE, "consequents")
ANTE = attr(RULE, "antecedent", "arguments"); INC = param("incoming_variables")
SC = "SemanticComposer"
GEN = attr(SELF, "variable_generator")


def tree_of(p):
    """the parse tree that is composed: current product of the parser"""
    for e, ch, fa in p.calls("compose"):
        if e.args: return e.args[0]
    return None


# ---------------------------------------------------------------- C01
@spec("C01", least=5)
def C01(c):
    f = c.prog.method(SC, "process"); n = 0
    for p in c.method(SC, "process", opaque={"check_for_sem", "compose", "optimize", "next", "get_current_product"}):
        evs = [e for e, ch, fa in p.events()]
        comp = [i for i, e in enumerate(evs) if e.kind == "call" and e.d.get("name") == "compose"]
        chk = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and e.d.get("name") == "check_for_sem"]
        if not comp: continue
        n += 1; t = tree_of(p)
        ok = any(i < comp[0] and e.args[:1] == (t,) for i, e in chk)
        c.on_path("C01.before", p, ok if ok or not p.imprecise else None, "a sentence is composed before its parse tree was checked for rules without a meaning", f)
    c.ob("C01.before-found", True if n else None, c.where(f), "the composer checks its tree")
    f = c.prog.method(SC, "check_for_sem"); node = param(f.params[1]); rule = attr(node, "rule"); sem = attr(rule, "sem"); kids = attr(node, "children"); n = 0; refused = 0
    for p in c.method(SC, "check_for_sem", opaque={"check_for_sem"}):
        word = p.dec(("truthy", attr(node, "form")))
        leaf = p.dec(("truthy", kids))
        miss = p.dec(("isnone", sem))
        if miss is None:
            t = p.dec(("truthy", sem)); miss = None if t is None else not t
        if p.raises:
            if p.v[3] != "explicit": continue
            refused += 1
            c.on_path("C01.message", p, contains(p.msg() or NONE, rule) or contains(p.msg() or NONE, node), "the error does not name the rule without a meaning", f)
            c.on_path("C01.words", p, True if word is False or leaf is True else False if word or not p.imprecise else None, "a word is rejected for having no meaning", f)
            c.on_path("C01.present", p, miss if miss is not None or any(contains(a, sem) for a in p.facts) else False, "a rule that has a meaning is rejected", f)
            continue
        n += 1
        exempt = word is True or leaf is False
        c.on_path("C01.rejected", p, True if exempt or miss is False else False, "a rule without a meaning is accepted", f)
        if leaf is False: continue
        rec = [(e, ch, fa) for e, ch, fa in p.calls("check_for_sem") if len(ch) == 1 and e.args[:1] == (T("item", kids, idx(ch[0][0])),)]
        Ls = {ch[0][0] for e, ch, fa in rec}
        full = [L for L in Ls if covers(p, L, kids) in ("all", "reversed", "unordered", "reordered") and every(p, L, {ch[0][1] for e, ch, fa in rec if ch[0][0] == L})]
        if full: c.on_path("C01.deep", p, True, "every child is checked", f)
        elif word is True: c.on_path("C01.deep", p, True, "words have no parts", f)
        else:
            other = any(e.d.get("name") != "check_for_sem" and any(contains(a, kids) for a in e.args) for e, ch, fa in p.calls())
            c.on_path("C01.deep", p, None if p.imprecise or other else False, "not every part of a phrase is checked", f)
    c.ob("C01.found", True if n and refused else None if not refused and n else None, c.where(f), "rules without a meaning are looked for")


def every(p, L, alts):
    """the loop does one of `alts` on every turn"""
    mode, al = p.st.loops.get(L, ("all", None))
    return mode == "all" and all(i in alts for i in range(len(p.eng.loops[L].alts)) if al is None or i in al)


# ---------------------------------------------------------------- C02
def fresh(v): return is_call(v, "next", GEN)


@spec("C02", least=20)
def C02(c):
    roots(c); create_map(c); extend(c); unify(c); children(c); generator(c)


def roots(c):
    f = c.prog.method(SC, "process"); n = 0
    for p in c.method(SC, "process", opaque={"check_for_sem", "compose", "optimize", "next", "get_current_product"}):
        for e, ch, fa in p.calls("compose"):
            if len(e.args) < 2: continue
            t, rv = e.args[:2]; its = p.seq(rv); n += 1
            want = attr(t, "rule", "antecedent", "arguments")
            if is_t(rv, "repeat") and is_t(rv[2], "list") and any(fresh(i.val) for i in p.seq(rv[2]) or [] if i.val is not None): c.on_path("C02.roots", p, False, "the arguments of the sentence all get the same variable", f); continue
            if its is None: c.on_path("C02.roots", p, None, "root variables not understood", f); continue
            for it in its:
                if it.kind != "one" or len(it.chain) != 1: c.on_path("C02.roots", p, None if it.kind in ("unknown", "setat") else False if it.kind in ("one", "skip") else None, "the sentence does not get one fresh variable for each of its own", f); continue
                L = it.chain[0][0]
                ok = over(p, L, want)
                if ok is None and p.eng.loops[L].dom == T("range", K(0), T("len", want), K(1)): ok = True
                c.on_path("C02.roots", p, None if ok is None else ok and fresh(it.val) if fresh(it.val) or it.val[0] == "k" else False if is_t(it.val, "item") else None, "the sentence does not get one fresh variable for each of its own", f)
            if not its: c.on_path("C02.roots", p, False, "the sentence gets no variables", f)
    c.ob("C02.roots-found", True if n else None, c.where(f), "root variables are made")


def create_map(c):
    f = c.prog.method(SC, "create_map"); node, inc = (param(x) for x in f.params[1:3]); n = 0
    ante = attr(node, "rule", "antecedent", "arguments"); cons = attr(node, "rule", "consequents")
    for p in c.method(SC, "create_map", opaque={"next"}):
        if p.raises: c.on_path("C02.map", p, False if p.v[3] == "explicit" else None, "making variables fails", f); continue
        m = p.v; its = p.seq(m); a = b = False
        if is_call(m, "dict") and m[4] and is_t(m[4][0], "zip"): c.on_path("C02.map", p, None, "map not understood", f); continue
        if its is None: c.on_path("C02.map", p, None, "map not understood", f); continue
        first = {}
        for k, it in enumerate(its):
            if it.kind == "update" and is_call(it.val, "dict") and it.val[4] and is_t(it.val[4][0], "zip") and it.val[4][0][2:4] == (ante, inc): a = True; n += 1; continue
            if it.kind == "skip":
                # a consequent's variable that gets nothing must be in the map
                if len(it.chain) == 2 or len(it.chain) == 1:
                    L = it.chain[-1][0]; q = Path(p.eng, fstate(it.facts), "return", NONE); arg = arg_in(p, it.chain, cons)
                    if arg is None: continue
                    c.on_path("C02.every", p, has(it.facts, arg), "a variable of a rule gets no fresh variable", f)
                continue
            if it.kind != "put" or not it.chain: c.on_path("C02.map", p, None, "map not understood", f); continue
            L = it.chain[-1][0]
            if is_t(it.key, "item") and it.key[2] == ante:
                ok = len(it.chain) == 1 and over(p, L, ante) in (True, None) and it.val == T("item", inc, idx(L)) and it.key[3] == idx(L)
                part = covers(p, L, ante) == "part" or covers(p, L, inc) == "part"
                if is_t(p.eng.loops[L].dom, "range") and p.eng.loops[L].dom != T("range", K(0), T("len", ante), K(1)) and p.eng.loops[L].dom != T("range", K(0), T("len", inc), K(1)): part = True
                c.on_path("C02.antecedent", p, ok and not part, "a variable of the rule's head is not the one given by the parent at its position", f)
                a = True; n += 1; first["a"] = k
                continue
            arg = arg_in(p, it.chain, cons)
            if arg is not None and it.key == arg:
                if not fresh(it.val): c.on_path("C02.fresh", p, False if it.val == arg or is_t(it.val, "item") or is_k(it.val) or is_t(it.val, "fstr") and not any(is_t(x, "phi") for x in subterms(it.val)) else None, "a new variable of a rule does not get a fresh variable", f)
                else: c.on_path("C02.fresh", p, True, "fresh", f)
                new = has(it.facts, arg)
                c.on_path("C02.once", p, new is False, "a variable that has been mapped already is mapped again: places of one variable get different variables", f)
                ok = True
                for (Lx, _), S in zip(it.chain, (cons, None)):
                    w = covers(p, Lx, cons) if S is not None else over(p, Lx, attr(T("item", cons, idx(it.chain[0][0])), "arguments"))
                    if w == "part" or w is False: ok = False
                c.on_path("C02.every", p, ok, "not every variable of the rule's parts is renamed", f)
                b = True; n += 1; first["b"] = k
                continue
            c.on_path("C02.map", p, None, "map not understood", f)
        c.on_path("C02.antecedent", p, a if a or not p.imprecise else None, "the rule's own variables are not given by the parent", f)
        c.on_path("C02.parts", p, b if b or not p.imprecise else None, "the variables of a rule's parts are not renamed", f)
    c.ob("C02.map-found", True if n >= 2 else None, c.where(f), "variables are mapped")


def arg_in(p, chain, cons):
    """the argument of a consequent that is looked at in this loop nest"""
    if len(chain) == 2:
        C = T("item", cons, idx(chain[0][0]))
        if covers(p, chain[0][0], cons) is None: return None
        A = attr(C, "arguments"); L = chain[1][0]
        if covers(p, L, A) is not None or p.eng.loops[L].dom == T("range", K(0), T("len", A), K(1)): return T("item", A, idx(L))
    return None


def has(facts, arg):
    for a, t in facts.items():
        if a[0] == "in" and a[1] == arg: return t
        if a[0] == "isnone" and is_call(a[1], "get") and a[1][4][:1] == (arg,): return not t
    return None


KINDS = ("list", "tuple", "SemanticTemplate", "Variable", "ReifiedVariable")


def kind_of(p, v):
    """the class that v is known to have on this path; 'other': known to have none of them; None: not settled"""
    no = set()
    for a, t in p.facts.items():
        if a[0] == "isinst" and a[1] == v:
            ns = a[2] if isinstance(a[2], (tuple, list)) else (a[2],)
            ns = [str(x).split(".")[-1] for x in ns]
            if t and len(ns) == 1: return ns[0]
            if not t: no |= set(ns)
    return ("other", no)


def recurses(c, key, p, f, name, what, arg_index, v, keep_rest, msg):
    """every element of v is treated by a recursive call of `name`"""
    calls = [(e, ch) for e, ch, fa in p.calls(name) if len(ch) == 1 and len(e.args) > arg_index and e.args[arg_index] == T("item", v, idx(ch[0][0]))]
    Ls = [L for L in {ch[0][0] for e, ch in calls} if covers(p, L, v) in ("all", "reversed") and every(p, L, {ch[0][1] for e, ch in calls if ch[0][0] == L})]
    if Ls: c.on_path(key, p, True, msg, f); return calls
    loops = [L for L in p.st.loops if covers(p, L, v)]
    other = any(e.d.get("name") not in (name, "next", "startswith") and any(contains(a, v) for a in e.args) for e, ch, fa in p.calls())
    c.on_path(key, p, None if other or p.imprecise else False, msg, f)
    return calls


def extend(c):
    f = c.prog.method(SC, "extend_map_with_semantics"); mp, v = (param(x) for x in f.params[1:3]); name = attr(v, "name"); n = set()
    for p in c.method(SC, "extend_map_with_semantics", opaque={"extend_map_with_semantics", "next"}):
        if p.raises: c.on_path("C02.extend", p, False if p.v[3] == "explicit" else None, "making variables fails", f); continue
        k = kind_of(p, v); puts = [(e, ch) for e, ch, fa in p.events("put") if e.d.get("target") == mp]
        if k in ("list", "tuple"):
            n.add(k); recurses(c, "C02.extend-deep", p, f, "extend_map_with_semantics", "x", 1, v, None, f"variables inside a {k} are not all given fresh variables")
        elif k == "SemanticTemplate":
            n.add(k); ok = any(not ch and len(e.args) > 1 and e.args[1] in (attr(v, "body"),) and e.args[0] == mp for e, ch, fa in p.calls("extend_map_with_semantics"))
            body = attr(v, "body")
            if not ok and any(a[0] == "isinst" and a[1] == body for a in p.facts):        # its body, a list, is gone through at once
                no = {x for a, t in p.facts.items() if a[0] == "isinst" and a[1] == body and not t for x in (a[2] if isinstance(a[2], (tuple, list)) else (a[2],))}
                if "list" not in no: recurses(c, "C02.extend-deep", p, f, "extend_map_with_semantics", "x", 1, body, None, "variables inside a template are not all given fresh variables")
                continue
            c.on_path("C02.extend-deep", p, ok if ok or not p.imprecise else None, "variables inside a template are not given fresh variables", f)
        elif k == "Variable":
            n.add(k); there = has(p.facts, name); gen = [t for a, t in p.facts.items() if a[0] == "truthy" and is_call(a[1], "startswith", name)]
            if not gen: gen = [t for a, t in p.facts.items() if a[0] == "truthy" and is_call(a[1], "isinstance", GEN)]
            if puts:
                e = puts[0][0]
                c.on_path("C02.extend-fresh", p, e.d["key"] == name and fresh(e.d["value"]) if e.d["key"] == name or is_t(e.d["key"], "attr") else None, "a variable found in the meaning does not get a fresh variable", f)
                c.on_path("C02.extend-known", p, there is False, "a variable that is mapped already gets another variable", f)
                c.on_path("C02.extend-renamed", p, gen[:1] == [False] if gen else False, "a variable that was renamed already is renamed again", f)
            else:
                c.on_path("C02.extend-skipped", p, True if there or True in gen else None if p.imprecise else False, "a variable found in the meaning gets no fresh variable", f)
        elif isinstance(k, tuple):
            missing = {"list", "tuple", "SemanticTemplate", "Variable"} - k[1]
            acted = puts or p.calls("extend_map_with_semantics")
            if not acted and missing: c.on_path("C02.extend-kinds", p, False if not p.imprecise else None, f"variables in a {sorted(missing)[0]} keep their names: rules share variables they should not", f)
        else: c.on_path("C02.extend", p, None, "not understood", f)
    c.ob("C02.extend-found", True if "Variable" in n else None, c.where(f), "variables of a meaning are looked for")


def unify(c):
    f = c.prog.method(SC, "unify_variables"); v, mp = (param(x) for x in f.params[1:3]); name = attr(v, "name"); n = set()
    for p in c.method(SC, "unify_variables", opaque={"unify_variables"}):
        if p.facts.get(("isnone", T("item", mp, name))): continue                 # what a variable is mapped to is a name
        if p.raises: c.on_path("C02.unify", p, False if p.v[3] == "explicit" else None, "renaming fails", f); continue
        k = kind_of(p, v); r = p.v; there = has(p.facts, name)
        if k in ("list", "tuple"):
            n.add(k)
            if is_t(r, "tupof"): tup = True; r = r[2]
            else: tup = r[0] == "tup"
            its = p.seq(r)
            if r == v: c.on_path("C02.unify-deep", p, False, f"variables in a {k} are not renamed", f); continue
            if its is None or any(it.kind in ("unknown", "setat") for it in its): c.on_path("C02.unify-deep", p, None, "", f); continue
            c.on_path("C02.unify-shape", p, tup == (k == "tuple"), f"a {k} does not stay a {k} when its variables are renamed", f)
            ok = bool(its)
            for it in its:
                if it.kind != "one" or len(it.chain) != 1: ok = False; continue
                L = it.chain[0][0]
                ok = ok and over(p, L, v) is True and is_call(it.val, "unify_variables") and tuple(it.val[4][:2]) == (T("item", v, idx(L)), mp)
            c.on_path("C02.unify-deep", p, ok, f"not every element of a {k} is renamed, in order", f)
        elif k == "SemanticTemplate":
            n.add(k); b = new_field(r, "body"); a = new_field(r, "args")
            if is_k(r) or is_t(r, "list"): c.on_path("C02.unify-template", p, False, "a template is renamed to something else", f); continue
            c.on_path("C02.unify-template", p, is_call(b, "unify_variables") and tuple(b[4][:2]) == (attr(v, "body"), mp) and a == attr(v, "args") if b is not None else False if r == v else None, "a template's body is not renamed, or its arguments are changed", f)
        elif k == "Variable":
            n.add(k)
            if is_k(r) or r == T("list"): c.on_path("C02.unify-variable", p, False, "a variable is renamed to something else", f)
            elif there or there is None and is_t(r, "new"): c.on_path("C02.unify-variable", p, mapped(new_field(r, "name"), mp, name, there) if is_t(r, "new") else False if r == v or mapped(r, mp, name, True) else None, "a variable is not replaced by the variable it is mapped to", f)
            elif there is False: c.on_path("C02.unify-unmapped", p, r == v or new_field(r, "name") == name, "a variable without a mapping is changed", f)
            else: c.on_path("C02.unify-variable", p, False if r == v else None, "a variable is not replaced by the variable it is mapped to", f)
        elif k == "ReifiedVariable":
            n.add(k)
            if there or there is None and r != v: c.on_path("C02.unify-reified", p, mapped(r, mp, name, there) if r == v or is_t(r, "item") or is_t(r, "new") or is_k(r) or is_call(r, "get") or r == T("list") else None, "a reified variable is not replaced by the name of the variable it is mapped to", f)
            elif there is False: c.on_path("C02.unify-reified", p, r == v, "a reified variable without a mapping is changed", f)
            else: c.on_path("C02.unify-reified", p, False if r == v else None, "a reified variable is not replaced", f)
        else:
            missing = set(KINDS) - k[1] if isinstance(k, tuple) else set()
            if isinstance(k, tuple) and missing and r == v: c.on_path("C02.unify-kinds", p, False if not p.imprecise else None, f"variables in a {sorted(missing)[0]} are not renamed", f)
            elif r == v: c.on_path("C02.unify-value", p, True, "a value stays itself", f)
            else: c.on_path("C02.unify-value", p, None if not (is_k(r) or is_t(r, "list") or is_t(r, "tupof") or is_t(r, "new")) else False, "a value that is no variable is changed", f)
    c.ob("C02.unify-found", True if {"list", "tuple", "Variable"} <= n else None, c.where(f), "variables are renamed")


def mapped(r, mp, name, there):
    """r is what the variable is mapped to"""
    if r == T("item", mp, name): return bool(there)
    if is_call(r, "get", mp) and r[4][:1] == (name,): return True if there or len(r[4]) > 1 and r[4][1] == name else False
    return False


def compose_paths(c):
    return c.method(SC, "compose", opaque={"compose", "create_map", "extend_map_with_semantics", "unify_variables"})


def children(c):
    f = c.prog.method(SC, "compose"); n = m = 0; node, inc = (param(x) for x in f.params[1:3])
    kids = attr(node, "children"); cons = attr(node, "rule", "consequents")
    for p in compose_paths(c):
        if p.raises: continue
        maps = [e.result for e, ch, fa in p.calls("create_map")]
        if len(maps) != 1: c.on_path("C02.compose-map", p, None if p.imprecise else False if len(maps) > 1 else None, "the variables of a rule are not mapped exactly once", f); continue
        M = maps[0]
        c.on_path("C02.compose-map", p, tuple(M[4][:2]) == (node, inc), "the variables of a rule are not mapped to those given by its parent", f)
        for e, ch, fa in p.calls("compose"):
            if len(ch) != 1 or len(e.args) < 2: c.on_path("C02.child", p, None, "", f); continue
            L = ch[0][0]; child = e.args[0]
            if child != T("item", kids, idx(L)): c.on_path("C02.child", p, None, "", f); continue
            n += 1; C = T("item", cons, idx(L)); its = _exp(p.eng, e.args[1][2:] if is_t(e.args[1], "list") else (("spread", e.args[1]),), p.eng.loops[L].alts[ch[0][1]].loops, (), fa)
            ok = bool(its)
            for it in its:
                if it.kind == "spread" and not it.chain: ok = None if ok else ok; continue
                if it.kind != "one" or len(it.chain) != 1: ok = False; continue
                L2 = it.chain[0][0]; A = attr(C, "arguments")
                w = covers(p, L2, A, p.eng.loops[L].alts[ch[0][1]].loops)
                if w is None and p.eng.loops[L2].dom == T("range", K(0), T("len", A), K(1)): w = "all"
                if w is None: ok = False if contains(p.eng.loops[L2].dom, cons) else None; continue
                ok = ok and w == "all" and it.val == T("item", M, T("item", A, idx(L2)))
            c.on_path("C02.child", p, ok, "a part does not get the variables of its own place in the rule", f)
        # the same map renames everything, after it was completed
        evs = [e for e, ch, fa in p.events() if e.kind == "call"]
        ex = [i for i, e in enumerate(evs) if e.d.get("name") == "extend_map_with_semantics"]
        un = [(i, e) for i, e in enumerate(evs) if e.d.get("name") == "unify_variables"]
        for i, e in un:
            m += 1
            c.on_path("C02.renamed-by", p, e.args[1:2] == (M,), "a meaning is renamed with other variables than those of its rule", f)
            seen = []
            for j in ex:
                if j > i: continue
                if evs[j].args[:1] != (M,): continue
                seen.append(evs[j].args[1])
            x = p.eng.freeze(p.st, e.args[0])
            inside = any(y == x or contains(y, x) for y in (p.eng.freeze(p.st, s) for s in seen))
            c.on_path("C02.complete", p, inside if inside or not (is_t(x, "call") or is_t(x, "list")) or True else None, "a meaning is renamed before all of its variables have been given fresh variables", f)
        if not un: c.on_path("C02.renamed", p, None if p.imprecise else False, "the meaning of a rule is not renamed", f)
        vs = list(p.v[1:]) if p.v[0] == "tup" else []
        if len(vs) == 3:
            for x in vs: c.on_path("C02.renamed", p, is_call(x, "unify_variables") or None if not (is_call(x, "sem") or is_t(x, "list")) else x == T("list"), "a part of the meaning is returned without its variables renamed", f)
    c.ob("C02.child-found", True if n and m else None, c.where(f), "parts are composed")


def generator(c):
    f = c.prog.method("VariableGenerator", "next"); num = attr(SELF, "number"); n = 0
    for p in c.method("VariableGenerator", "next"):
        if p.raises: continue
        n += 1
        s = [e for e, ch, fa in p.events("setattr") if e.d["name"] == "number" and e.d["base"] == SELF]
        if len(s) != 1: c.on_path("C02.counter", p, False if not s and not p.imprecise else None, "asking for a variable does not advance the counter", f); continue
        v = s[0].d["value"]; up = is_t(v, "bin") and v[2] == "+" and v[3] == num and is_k(v[4]) and isinstance(kv(v[4]), int) and kv(v[4]) > 0
        c.on_path("C02.counter", p, up if up or is_t(v, "bin") or is_k(v) or v == num else None, "asking for a variable does not advance the counter", f)
        r = p.v; parts = list(r[2:]) if is_t(r, "fstr") else []
        own = contains(r, v) or contains(r, num)
        c.on_path("C02.distinct", p, own if own or not p.imprecise else None, "a variable does not carry the counter: two fresh variables can be the same", f)
        c.on_path("C02.prefix", p, contains(r, attr(SELF, "prefix")), "a fresh variable does not carry the prefix that tells it from a variable of a rule", f)
    c.ob("C02.generator-found", True if n else None, c.where(f), "variables are generated")
    # the counter is never set back while sentences are composed
    bad = []
    for fn in c.prog.all_functions():
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "reset" and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "variable_generator": bad.append((fn, x.lineno))
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Attribute) and t.attr == "variable_generator" and fn.name != "__init__": bad.append((fn, x.lineno))
                    if isinstance(t, ast.Attribute) and t.attr == "number" and isinstance(t.value, ast.Attribute) and t.value.attr == "variable_generator": bad.append((fn, x.lineno))
    for fn, ln in bad: c.ob("C02.never-reset", False, c.where(fn, ln), "the counter of fresh variables is set back: variables of two sentences or rules can be the same")
    if not bad: c.ob("C02.never-reset", True, c.where(f), "the counter is never set back")
    # a fresh variable differs from every variable of a grammar
    f = c.prog.method(SC, "__init__"); pre = None
    for p in c.method(SC, "__init__"):
        for e, ch, fa in p.events("setattr"):
            if e.d["name"] == "variable_generator": pre = new_field(p.eng.freeze(p.st, e.d["value"]), "prefix")
    c.ob("C02.prefix-apart", None if pre is None or not is_k(pre) else bool(kv(pre)) and not (kv(pre)[0].isalnum() or kv(pre)[0] == "_"), c.where(f), "a fresh variable could be named like a variable of a rule")


# ---------------------------------------------------------------- C05
@spec("C05", least=20)
def C05(c):
    f = c.prog.method(SC, "compose"); n = 0; node = param(f.params[1]); rule = attr(node, "rule"); kids = attr(node, "children")
    for p in compose_paths(c):
        if p.raises: continue
        sems = [(e, fa) for e, ch, fa in p.calls("sem") if not ch and e.d.get("recv") == rule]
        if len(sems) != 1: c.on_path("C05.sem-once", p, None if p.imprecise else False, "the semantic function of a rule is not called exactly once", f); continue
        S = sems[0][0]; n += 1
        KS = child_list(c, p, f, S.args, "the semantic function")
        ex = [e for e, ch, fa in p.calls("exec") if not ch and e.d.get("recv") == rule]
        di = [e for e, ch, fa in p.calls("dialog") if not ch and e.d.get("recv") == rule]
        for e in ex + di:
            same = tuple(e.args) == tuple(S.args)
            c.on_path("C05.same-arguments", p, True if same else None if p.imprecise else child_list(c, p, f, e.args, "the exec or dialog function", quiet=True), "the exec or dialog function of a rule is not called with the meanings of its children", f)
        vs = list(p.v[1:]) if p.v[0] == "tup" else None
        if vs is None or len(vs) != 3: c.on_path("C05.result", p, False if is_k(p.v) or p.v == T("list") or vs is not None else None, "composing does not return the meaning, the inferences and the executable atoms", f); continue
        vs = [x[4][0] if is_call(x, "unify_variables") and x[4] else x for x in vs]
        c.on_path("C05.meaning", p, vs[0] == S.result, "the meaning of a phrase is not what its semantic function returned", f)
        # inferences
        if overwritten(p, vs[1]): c.on_path("C05.inferences", p, False, "only the inferences of the last child are kept", f); continue
        its = p.seq(vs[1]); dlg = p.dec(("callable", attr(rule, "dialog")))
        own = di[0].result if di else attr(rule, "dialog")
        ok_own = False; kid = set(); odd = False
        for it in its or []:
            D = dom_of(p.eng, it.chain[1][0]) if len(it.chain) == 2 else None
            if D is not None and is_t(D, "item") and is_call(D[2], "compose") and covers(p, it.chain[1][0], D) is not None:
                # one by one
                if it.kind == "skip" or covers(p, it.chain[1][0], D) != "all": c.on_path("C05.inferences", p, False, "an inference of a child is dropped", f); kid.add((it.chain[0], D)); continue
                if it.kind == "one" and it.val == T("item", D, idx(it.chain[1][0])): kid.add((it.chain[0], D)); continue
            if it.kind == "skip": continue
            if it.kind == "spread" and not it.chain:
                if it.val == own or strip_copy(it.val) == own: ok_own = True
                else: odd = True
            elif it.kind == "one" and (it.val == own or is_t(it.val, "item") and is_call(it.val[2], "compose")): c.on_path("C05.inferences", p, False, "the inferences are not kept as atoms", f); ok_own = True
            elif it.kind == "spread" and len(it.chain) == 1 and is_t(it.val, "item") and is_call(it.val[2], "compose"): kid.add((it.chain[0], it.val))
            else: odd = True
        if its is None or odd: c.on_path("C05.inferences", p, None if vs[1] != S.result else False, "the inferences are not understood", f)
        else:
            if dlg is True: c.on_path("C05.own-inferences", p, ok_own and bool(di), "the inferences of a rule's dialog function are not kept", f)
            elif dlg is False: c.on_path("C05.own-inferences", p, ok_own and not di, "the inferences of a rule are not kept", f)
            else: c.on_path("C05.own-inferences", p, None if p.imprecise or any(contains(a, attr(rule, "dialog")) for a in p.facts) else False, "a dialog function is not called", f)
            from_children(c, p, f, kid, kids, 1, "inferences")
        # executable
        its = p.seq(vs[2]); has_exec = p.dec(("truthy", attr(rule, "exec")))
        if has_exec is None:
            t = p.dec(("isnone", attr(rule, "exec"))); has_exec = None if t is None else not t
        if vs[2] == S.result: c.on_path("C05.executable", p, False, "the meaning is executed as a command", f)
        elif has_exec is True: c.on_path("C05.executable", p, any(vs[2] == e.result or contains(vs[2], e.result) for e in ex), "the atoms of a rule's exec function are not kept", f)
        if has_exec is True and not any(vs[2] == e.result for e in ex):
            more = [it for it in its or [] if it.kind != "skip" and len(it.chain) == 1 and is_t(it.val, "item") and is_call(it.val[2], "compose")]
            if more: c.on_path("C05.executable-own", p, False, "the commands of the children are executed next to those of the rule's own exec function", f)
        elif has_exec is False:
            kid = {(it.chain[0], it.val) for it in its or [] if it.kind == "spread" and len(it.chain) == 1}
            from_children(c, p, f, kid, kids, 2, "executable atoms")
        else: c.on_path("C05.executable", p, None if p.imprecise or any(contains(a, attr(rule, "exec")) for a in p.facts) else False, "an exec function is not called", f)
    c.ob("C05.found", True if n >= 2 else None, c.where(f), "compose analysed")
    c.guard("C05.token", "EarleyParser.scan", token_meaning, c)
    rule_field(c, "C05.field-sem", "sem", "sem", False, NONE)
    rule_field(c, "C05.field-exec", "exec", "exec", False, NONE)
    rule_field(c, "C05.field-dialog", "dialog", "dialog", None, T("list"))
    product(c)


def from_children(c, p, f, kid, kids, i, what):
    if not kid: c.on_path("C05.kept", p, None if p.imprecise else False, f"the {what} of a rule's parts are lost", f); return
    Ls = {ch[0] for ch, v in kid}
    for L in Ls:
        lp = p.eng.loops[L]; mode, al = p.st.loops.get(L, ("all", None))
        c.on_path("C05.kept", p, over(p, L, kids), f"the {what} of a rule's parts are not all kept, in order", f)
        for j, a in enumerate(lp.alts):
            if al is not None and j not in al: continue
            comp = [x for x in a.trace if x.kind == "call" and x.d.get("name") == "compose"]
            if not comp: continue
            want = T("item", comp[0].result, K(i))
            got = [v for ch, v in kid if ch == (L, j)]
            c.on_path("C05.kept", p, want in got, f"the {what} of a rule's parts are lost", f)
            for v in got:
                if v != want and is_t(v, "item"): c.on_path("C05.kept", p, False, f"something else is kept as the {what} of a part", f)


def child_list(c, p, f, args, what, quiet=False):
    """the arguments are the meanings of the children, in order"""
    node = param(f.params[1]); kids = attr(node, "children")
    if len(args) != 1 or not (isinstance(args[0], tuple) and args[0][0] in ("starunk", "*")):
        if not quiet: c.on_path("C05.children", p, False if not p.imprecise else None, f"{what} is not called with the meanings of the children", f)
        return False
    S = p.eng.freeze(p.st, args[0][1]); its = p.seq(S); ok = True
    if is_t(S, "slice", "reversed", "sorted", "set"):
        if not quiet: c.on_path("C05.children", p, False, f"{what} does not get the meanings of all children in their order", f)
        return False
    if its is None: ok = None
    if its == []: ok = False
    Ls = {it.chain[0][0] for it in its or [] if it.chain}
    if any(not it.chain for it in its or []): ok = None if all(it.kind == "spread" for it in its if not it.chain) else False
    if len(Ls) > 1: ok = None
    if not Ls and ok: ok = False
    for L in Ls:
        w = covers(p, L, kids)
        if w is None: ok = None; continue
        if w != "all": ok = False; continue
        lp = p.eng.loops[L]; mode, al = p.st.loops.get(L, ("all", None)); kid = T("item", kids, idx(L))
        for j, a in enumerate(lp.alts):
            if al is not None and j not in al: continue
            mine = [it for it in its if it.chain and it.chain[0] == (L, j) and it.kind != "skip"]
            q = Path(p.eng, fstate({**p.facts, **a.facts}), "return", NONE)
            phrase = q.dec(("truthy", attr(kid, "children"))); has_sem = q.dec(("truthy", attr(kid, "rule", "sem")))
            if has_sem is None:
                t = q.dec(("isnone", attr(kid, "rule", "sem"))); has_sem = None if t is None else not t
            vals = [it.val for it in mine if it.kind == "one" and len(it.chain) == 1]
            if len(vals) != len(mine): ok = None; continue
            if phrase is True:
                comp = [x.result for x in a.trace if x.kind == "call" and x.d.get("name") == "compose" and x.args[:1] == (kid,)]
                good = len(vals) == 1 and len(comp) == 1 and vals[0] == T("item", comp[0], K(0))
            elif phrase is False and has_sem: good = len(vals) == 1 and is_call(vals[0], "sem", attr(kid, "rule")) and not vals[0][4]
            elif phrase is False and has_sem is False: good = not vals
            else: good = None if p.imprecise or phrase is None and any(contains(x, kid) for x in a.facts) else False
            if good is not True: ok = good if ok or good is False else ok
    if not quiet: c.on_path("C05.children", p, ok, f"{what} is not called with the meanings of all parts, in order", f)
    return ok


def product(c):
    f = c.prog.method(SC, "process"); n = 0
    for p in c.method(SC, "process", opaque={"check_for_sem", "compose", "optimize", "next", "get_current_product"}):
        if p.raises: continue
        comp = [e for e, ch, fa in p.calls("compose")]
        if len(comp) != 1: c.on_path("C05.composed", p, None if p.imprecise else False, "a sentence is not composed exactly once", f); continue
        R = comp[0].result; rv = comp[0].args[1]
        t = comp[0].args[0]
        c.on_path("C05.tree", p, True if is_t(t, "attr") and t[3] == "parse_tree" and (contains(t, attr(SELF, "parser"))) else None, "the tree that is composed is not the parser's current one", f)
        prods = new_field(p.v, "products"); its = p.seq(prods) if prods is not None else None
        P = its[0].val if its and len(its) == 1 else None
        if P is None or not is_t(P, "new"): c.on_path("C05.product", p, None if its is None or its else False, "product not understood", f); continue
        n += 1
        c.on_path("C05.success", p, new_field(p.v, "error_type") in (EMPTY, None), "a composed sentence is reported as an error", f)
        it = p.eng.freeze(p.st, new_field(P, "semantics_iterations")) if new_field(P, "semantics_iterations") else NONE
        opt = [e for e, ch, fa in p.calls("optimize")]
        if opt:
            c.on_path("C05.optimized", p, it == opt[0].result and opt[0].args[:1] == (T("item", R, K(0)),), "the optimized meaning is not the one that is used, or something else is optimized", f)
        else:
            vals = [s[2] for s in it[2:] if s[0] == "put"] if is_t(it, "dict") else None
            c.on_path("C05.product-meaning", p, vals == [T("item", R, K(0))] if vals is not None else None, "the product does not carry the meaning", f)
            o = p.dec(("truthy", attr(SELF, "query_optimizer"))); o = o if o is not None else (None if p.dec(("isnone", attr(SELF, "query_optimizer"))) is None else not p.dec(("isnone", attr(SELF, "query_optimizer"))))
            c.on_path("C05.optimizer-used", p, o is False if o is not None or not p.imprecise else None, "the query optimizer is not used", f)
        c.on_path("C05.product-inferences", p, new_field(P, "inferences") == T("item", R, K(1)), "the product does not carry the inferences", f)
        c.on_path("C05.product-executable", p, new_field(P, "executable") == T("item", R, K(2)), "the product does not carry the executable atoms", f)
        c.on_path("C05.product-roots", p, p.eng.freeze(p.st, new_field(P, "return_variables") or NONE) == p.eng.freeze(p.st, rv), "the product does not carry the root variables", f)
    c.ob("C05.product-found", True if n else None, c.where(f), "products analysed")
    f = c.prog.method("SemanticComposerProduct", "get_semantics_last_iteration"); its = attr(SELF, "semantics_iterations"); n = 0
    for p in c.method("SemanticComposerProduct", "get_semantics_last_iteration"):
        if p.raises: continue
        n += 1; c.on_path("C05.last", p, is_last(p, its), "the meaning that is executed is not the result of the last optimization step", f)
    f = c.prog.method("SemanticComposerProduct", "get_output")
    for p in c.method("SemanticComposerProduct", "get_output", opaque={"get_semantics_last_iteration"}):
        c.on_path("C05.output", p, is_call(p.v, "get_semantics_last_iteration", SELF) if p.returns else None, "the output of composing is not its last meaning", f)


def is_last(p, d):
    v = p.v
    vals = lambda x: is_t(x, "values") and x[2] == d or is_call(x, "values", d) or is_t(x, "listof") and vals(x[2])
    if is_t(v, "last"):
        L = v[2]; lp = p.eng.loops[L]
        ok = any(vals(x) for x in [lp.dom] + list(lp.seqs or []))
        up = [a.next.get(v[3]) for a in lp.alts]
        return ok and all(u is not None and (u == T("item", lp.dom, idx(L)) or contains(u, idx(L))) for u in up) if ok else None
    if is_t(v, "item") and v[3] == K(-1) and vals(v[2]): return True
    if is_t(v, "item") and is_k(v[3]) or v == T("list"): return False
    if is_t(v, "phi"):
        lp = p.eng.loops[v[2]]
        if not any(vals(x) for x in [lp.dom] + list(lp.seqs or [])): return False if any(vals(strip_seq(x)[0]) and strip_seq(x)[1] != "all" for x in [lp.dom] + list(lp.seqs or [])) else None
        if p.st.loops.get(v[2], ("all", None))[0] != "all": return False
        return all(a.next.get(v[3]) is not None and contains(a.next[v[3]], idx(v[2])) for a in lp.alts)
    if v == NONE: return True if p.dec(("truthy", d)) is False else None if p.imprecise or any(contains(a, d) for a in p.facts) else False
    return None


def token_meaning(c):
    """the meaning of a text that a regular expression matched is that text"""
    from .specs_grammar import enqueued
    from .specs_parse import CASE, TRIM
    f = c.prog.method("EarleyParser", "scan"); n = 0
    state = param(f.params[2]); nxt = T("item", attr(state, "rule", "consequents"), T("bin", "+", attr(state, "dot_position"), K(-1)))
    made = {}
    for p in c.method("EarleyParser", "scan", opaque={"perform_regexp", "read_word", "enqueue", "create_semantic_function_for_scanned_state"}):
        if p.raises: continue
        for e, ch, fa, st, position in enqueued(p):
            if not fa.get(norm_eq(K("reg-exp"), attr(nxt, "position_type"))): continue
            rule = new_field(st, "rule"); cons = [i.val for i in p.seq(new_field(rule, "consequents")) or []] if rule is not None and new_field(rule, "consequents") is not None else []
            word = new_field(cons[0], "predicate") if len(cons) == 1 and is_t(cons[0], "new") else None
            sem = new_field(rule, "sem") if rule is not None else None
            if word is None or sem is None: c.on_path("C05.token", p, None, "the meaning of a token is not understood", f); continue
            n += 1
            if sem == NONE or is_k(sem): c.on_path("C05.token", p, False, "a text that a regular expression matched has no meaning", f); continue
            if is_t(sem, "call") and sem[3] == param("self") and len(sem[4]) == 1:
                g = c.prog.find_method(f.cls, sem[2]) if hasattr(c.prog, "find_method") else f.cls.find(sem[2])
                if g is None: c.on_path("C05.token", p, None, "", f); continue
                a0 = sem[4][0]
                if nc(a0) == nc(word): ok = gives_back(g)
                elif is_t(a0, "call") and (a0[2] in CASE or a0[2] in TRIM) and a0[3] is not None and nc(a0[3]) == nc(word): ok = False
                elif is_t(word, "slice") and nc(a0) == nc(word[2]) or is_k(a0) or is_t(a0, "slice") and nc(a0[2]) == nc(word): ok = False
                else: ok = None
                c.on_path("C05.token", p, ok, "the meaning of a text that a regular expression matched is not that text", f); continue
            g = fn_func(c, sem, p.eng) if isinstance(sem, tuple) else None
            c.on_path("C05.token", p, late_bound(f, g), "the meaning of a text that a regular expression matched is not that text", f)
    c.ob("C05.token-found", True if n else None, c.where(f), "tokens of regular expressions have a meaning")


def gives_back(g):
    """the function returns a function without arguments that gives the parameter; None: not recognised"""
    from .specs_parse import CASE, TRIM
    ps = [x for x in g.params if x not in ("self", "cls")]
    if len(ps) != 1: return None
    rets = [x for x in ast.walk(g.node) if isinstance(x, ast.Return)]
    lam = [x for x in ast.walk(g.node) if isinstance(x, ast.Lambda)]
    inner = [x for x in ast.walk(g.node) if isinstance(x, ast.FunctionDef) and x is not g.node]
    if any(isinstance(x, (ast.Assign, ast.AugAssign)) for x in ast.walk(g.node)): return None
    if len(lam) == 1 and not inner and len(rets) == 1: b = lam[0].body
    elif len(inner) == 1 and not lam:
        r = [x for x in ast.walk(inner[0]) if isinstance(x, ast.Return)]
        if len(r) != 1: return None
        b = r[0].value
    else: return None
    if isinstance(b, ast.Name): return True if b.id == ps[0] else None
    if isinstance(b, ast.Constant): return False
    if isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name) and b.value.id == ps[0]: return False
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and isinstance(b.func.value, ast.Name) and b.func.value.id == ps[0] and b.func.attr in CASE + TRIM: return False
    return None


def late_bound(f, g):
    """False: a function made in a loop that reads a variable the loop changes, so that all of them see its last value"""
    if g is None or not isinstance(g.node, ast.Lambda): return None
    lam = g.node
    if not isinstance(lam.body, ast.Name) or lam.body.id in {x.arg for x in lam.args.args + lam.args.kwonlyargs}: return None
    for x in ast.walk(f.node):
        if isinstance(x, (ast.For, ast.While)) and any(y is lam for y in ast.walk(x)):
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == lam.body.id: return False
    return None
