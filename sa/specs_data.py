"""D01-D07: data sources, the result cache, CSV import, the memory modules and the dialog context."""
import re
from .spec import *
from .specs_pipeline import is_call

SELF = param("self")
COND = "(?:=|==|IS|<=>)"


def adapters(c):
    """classes that offer select() to modules, by kind: 'sql' (execute on a cursor), 'sparql', 'store'"""
    out = {}
    base = c.prog.cls("SomeDataSource")
    for cl in c.prog.classes.values() if isinstance(c.prog.classes, dict) else c.prog.classes:
        if cl is base or base not in cl.mro(): continue
        if cl.methods.get("select") is None: continue
        src = "\n".join(ast.dump(m.node) for m in cl.methods.values())
        out[cl.name] = "sql" if "'execute'" in src else "sparql" if "'requests'" in src or "'query'" in src else "store"
    return out


# ---------------------------------------------------------------- texts
def pieces(p, v, col=None, seen=()):
    """the pieces a text is made of: ('s', literal) ('v', value) ('join', sep, list) ('fold', loop, variable)"""
    if is_k(v): return [("s", str(kv(v)))]
    if is_t(v, "fstr"): out = [y for x in v[2:] for y in pieces(p, x)]
    elif is_t(v, "bin") and v[2] == "+": out = pieces(p, v[3]) + pieces(p, v[4])
    elif is_t(v, "str"): out = pieces(p, v[2])
    elif is_t(v, "join") and is_k(v[2]): out = [("join", kv(v[2]), v[3])]
    elif is_t(v, "phi"): out = [("fold", v[2], v[3])]
    else: out = [("v", v)]
    m = []
    for x in out:
        if x[0] == "s" and m and m[-1][0] == "s": m[-1] = ("s", m[-1][1] + x[1])
        else: m.append(x)
    return m


def closure(p, v, loops, seen=None, chain=()):
    """every value that becomes part of the text, through loops and joined lists"""
    seen = seen if seen is not None else set()
    for x in pieces(p, v):
        if x[0] == "v":
            yield x[1]
            for y in subterms(x[1]):
                if is_t(y, "list") and len(y) > 2: yield from (i.val for i in p.seq(y) or [] if i.kind == "one")
        elif x[0] == "join":
            its = p.seq(x[2])
            if its is None: yield x[2]; continue
            for i in its:
                if i.kind == "skip": continue
                if i.kind == "one": yield from closure(p, i.val, loops, seen)
                else: yield i.val if i.val is not None else x[2]
        elif x[0] == "fold":
            if x in seen: continue
            seen.add(x); lp = p.eng.loops[x[1]]
            i0 = lp.phi_init.get(x[2])
            if i0 is not None: yield from closure(p, p.eng.freeze(p.st, i0), loops, seen)
            for a in lp.alts:
                if x[2] in a.next: yield from closure(p, p.eng.freeze(p.st, a.next[x[2]]), loops, seen)


def holds_value(v, vals):
    """a value (not just the number of values) is part of v"""
    if not isinstance(v, tuple): return False
    if v in vals: return True
    if is_t(v, "len"): return False
    if isinstance(v, tuple): return any(holds_value(x, vals) for x in v)
    return False


# ---------------------------------------------------------------- SQL
def executes(p, ev=None):
    return [(e, ch, fa) for e, ch, fa in p.events("call") if e.d.get("name") in ("execute", "executemany", "executescript")]


def where_part(p, ps):
    """pieces after WHERE, or None when the text has no WHERE"""
    for i, x in enumerate(ps):
        if x[0] == "s":
            m = re.search(r"\bWHERE\b", x[1], re.I)
            if m: return [("s", x[1][m.end():])] + ps[i + 1:]
    return None


def clause(p, ps, is_col):
    """pieces of one restriction as text with a mark for the column: C; None when not understood"""
    out = ""
    for x in ps:
        if x[0] == "s": out += x[1]
        elif x[0] == "v" and is_col(x[1]): out += "\0C"
        else: return None
    return out


def cond_ok(t, mark):
    """verdict for the text of a restriction of one column"""
    q = r"[\"`]?\0C[\"`]?"
    m = re.fullmatch(r"\s*\(?\s*" + q + r"\s*(\S+?)\s*" + re.escape(mark) + r"\s*\)?\s*", t)
    m = m or re.fullmatch(r"\s*\(?\s*" + q + r"\s+(.+?)\s+" + re.escape(mark) + r"\s*\)?\s*", t)
    if not m: return None
    return True if re.fullmatch(COND, m.group(1).upper()) else False


def placeholder(c, cname):
    """the parameter mark of the database module behind the adapter"""
    src = c.prog.cls(cname).module.rel.lower()
    return "?" if "sqlite" in src else "%s"


def prepended(p, v):
    """the list v is built back to front in a loop"""
    v = strip_copy(v)
    if is_t(v, "phi") and isinstance(v[3], tuple) and v[3][0] == "obj":
        for a in p.eng.loops[v[2]].alts:
            n = a.next.get(v[3])
            if n is not None and is_t(n, "list") and len(n) > 3 and n[-1] == ("spread", v) and n[2][0] == "one": return True
    return False


def column_loop(p, L, cols, vals):
    for s in (cols, vals):
        w = covers(p, L, s)
        if w: return w
    d = p.eng.loops[L].dom
    if is_t(d, "range") and d[2:] in ((T("len", cols),), (T("len", vals),), (K(0), T("len", cols)), (K(0), T("len", vals))): return "all"
    return None


def restricts(c, key, p, f, L, alts, emits, vals, what):
    """in loop L: an alternative restricts (emits) exactly when the value is not None"""
    v = el(p.eng, vals, L)
    for i, a in alts:
        q = Path(p.eng, fstate({**p.facts, **a.facts}), "return", NONE)
        n = q.dec(("isnone", v)); e = emits(a)
        if e is None: c.on_path(key, p, None, f"{what}: not understood", f); continue
        if e: c.on_path(key, p, n is False, f"a column with None can restrict the result ({what})", f)
        else: c.on_path(key, p, n is True, f"a value other than None (such as 0, False or '') is left out ({what})", f)


def alternatives(p, L, loops=None):
    lp = p.eng.loops[L]; mode, al = (loops or p.st.loops).get(L, ("all", None))
    return [(i, a) for i, a in enumerate(lp.alts) if al is None or i in al]


def conditions(c, key, p, f, ps, cols, vals, mark, optional=True):
    """the restrictions in the pieces after WHERE; optional: a column with None does not restrict. -> number decided"""
    n = 0
    ps = [x for x in ps if not (x[0] == "s" and not x[1].strip())]
    folds = [x for x in ps if x[0] == "fold"]; joins = [x for x in ps if x[0] == "join"]
    if len(folds) + len(joins) != 1: c.on_path(key + ".clause", p, None, "the restrictions of the query are not understood", f); return 0
    k = next(i for i, x in enumerate(ps) if x[0] in ("fold", "join")); pre = ps[:k]; post = ps[k + 1:]
    if post: c.on_path(key + ".clause", p, None, "text after the restrictions", f)
    if any(x[0] != "s" for x in pre): c.on_path(key + ".clause", p, None, "text before the restrictions", f); return 0
    pre = "".join(x[1] for x in pre).strip()
    if folds:
        L, name = folds[0][1:]; lp = p.eng.loops[L]
        w = column_loop(p, L, cols, vals)
        if w is None: c.on_path(key + ".clause", p, None, "the loop over the columns is not understood", f); return 0
        if w == "part" or p.st.loops.get(L, ("all",))[0] != "all": c.on_path(key + ".every", p, False, "not every column is looked at", f)
        i0 = pieces(p, p.eng.freeze(p.st, lp.phi_init[name]))
        t0 = (pre + " " + "".join(x[1] for x in i0 if x[0] == "s")).strip() if all(x[0] == "s" for x in i0) else None
        ok = None if t0 is None else True if re.fullmatch(r"\(?\s*(TRUE|1|1\s*=\s*1)\s*\)?", t0, re.I) else False if re.fullmatch(r"FALSE|0|NULL|1\s*=\s*0", t0, re.I) else None
        c.on_path(key + ".clause", p, ok, f"without restrictions the query does not give all rows: {t0!r}", f)
        me = T("phi", L, name); C = el(p.eng, cols, L)
        def emits(a):
            v = a.next.get(name, me)
            return False if v == me else True
        if optional: restricts(c, key + ".only-none", p, f, L, alternatives(p, L), emits, vals, "restriction")
        for i, a in alternatives(p, L):
            if not emits(a): continue
            d = pieces(p, p.eng.freeze(p.st, a.next[name]))
            if not d or d[0] != ("fold", L, name):
                lost = not any(x == ("fold", L, name) for x in d)
                c.on_path(key + ".all-apply", p, False if lost else None, "a restriction replaces the earlier restrictions", f); continue
            t = clause(p, d[1:], lambda x: x == C)
            if t is None: c.on_path(key + ".clause", p, None, "the restriction of a column is not understood", f); continue
            m = re.match(r"\s+AND\b", t, re.I)
            if not m: c.on_path(key + ".all-apply", p, False if re.match(r"\s+OR\b", t, re.I) or re.match(r"\S", t) else None, "the restrictions do not apply together", f); continue
            c.on_path(key + ".clause", p, cond_ok(t[m.end():], mark), f"a restriction does not compare the column with the value: {t!r}", f); n += 1
        return n
    sep, lst = joins[0][1:]
    its = p.seq(lst)
    if its is None: c.on_path(key + ".clause", p, None, "the restrictions of the query are not understood", f); return 0
    start = [i for i in its if not i.chain]
    its = [i for i in its if i.chain]
    for i in start:
        t = clause(p, pieces(p, i.val), lambda x: False) if i.kind == "one" else None
        ok = None if t is None else True if re.fullmatch(r"\(?\s*(TRUE|1|1\s*=\s*1)\s*\)?", t.strip(), re.I) else None
        c.on_path(key + ".clause", p, ok, "a fixed restriction", f)
    if pre and not re.fullmatch(r"\(|(TRUE|1|1\s*=\s*1)\s+AND", pre, re.I): c.on_path(key + ".clause", p, None, "text before the restrictions", f)
    Ls = {i.chain[0][0] for i in its}
    if len(Ls) != 1 or any(len(i.chain) != 1 for i in its): c.on_path(key + ".clause", p, None, "the restrictions are not made in one loop over the columns", f); return 0
    L = Ls.pop(); w = column_loop(p, L, cols, vals)
    if w is None: c.on_path(key + ".clause", p, None, "the loop over the columns is not understood", f); return 0
    if w == "part": c.on_path(key + ".every", p, False, "not every column is looked at", f)
    C = el(p.eng, cols, L); by = {}
    for i in its: by.setdefault(i.chain[0][1], []).append(i)
    if optional: restricts(c, key + ".only-none", p, f, L, alternatives(p, L), lambda a: any(i.kind != "skip" for i in by.get(next(k for k, x in alternatives(p, L) if x is a), [])), vals, "restriction")
    up = sep.upper()
    for i in its:
        if i.kind == "skip":
            continue
        t = clause(p, pieces(p, i.val), lambda x: x == C) if i.kind == "one" else None
        if t is None: c.on_path(key + ".clause", p, None, "the restriction of a column is not understood", f); continue
        two = t + sep + t
        m = re.fullmatch(r"(.*\S)\s+(AND|OR)\s+(\S.*)", two, re.I | re.S)
        if not m: c.on_path(key + ".all-apply", p, False if not re.search(r"AND", up) else None, "the restrictions do not apply together", f); continue
        c.on_path(key + ".all-apply", p, m.group(2).upper() == "AND", "the restrictions do not apply together", f)
        c.on_path(key + ".clause", p, cond_ok(t, mark), f"a restriction does not compare the column with the value: {t!r}", f); n += 1
    return n


def arguments(c, key, p, f, a, cols, vals, optional=True):
    """the parameters of the query: the values (that are not None) in the order of the columns"""
    a = strip_copy(a)
    if not optional and a == vals: return c.on_path(key, p, True, "", f)
    if a == vals: return c.on_path(key, p, False if optional else True, "None is passed as a parameter, or the parameters do not belong to the restrictions", f)
    its = p.seq(a)
    if prepended(p, a): return c.on_path(key, p, False, "the parameters are not in the order of the columns", f)
    if its is None: return c.on_path(key, p, None, "the parameters of the query are not understood", f)
    if not its: return c.on_path(key, p, None if p.st.loops else False, "the query has no parameters", f)
    Ls = {i.chain[0][0] for i in its if len(i.chain) == 1}
    if len(Ls) != 1 or any(len(i.chain) != 1 for i in its):
        b, how = strip_seq(a)
        return c.on_path(key, p, False if b == vals and how != "all" else None, "the parameters of the query are not the values in order", f)
    L = Ls.pop(); w = column_loop(p, L, cols, vals)
    if w is None: return c.on_path(key, p, None, "the parameters of the query are not understood", f)
    if w != "all": c.on_path(key, p, False, "the parameters of the query are not all values in order", f)
    v = el(p.eng, vals, L); by = {}
    for i in its: by.setdefault(i.chain[0][1], []).append(i)
    if optional: restricts(c, key, p, f, L, alternatives(p, L), lambda al: any(i.kind == "one" for i in by.get(next(k for k, x in alternatives(p, L) if x is al), [])), vals, "parameters")
    for i in its:
        if i.kind == "skip":
            if not optional: c.on_path(key, p, False, "a value is not passed to the query", f)
            continue
        ok = i.val == v
        if not ok: ok = False if i.kind == "one" and (not contains(i.val, v) or is_t(i.val, "str")) else None
        c.on_path(key, p, ok, "a parameter is not the value of its column", f)


def select_text(c, p, f, ps, cols, table):
    """the text before WHERE: the requested columns, in order, from the table"""
    head = []
    for x in ps:
        if x[0] == "s":
            m = re.search(r"\bWHERE\b", x[1], re.I)
            if m: head.append(("s", x[1][:m.start()])); break
        if x[0] == "fold": break
        head.append(x)
    if not head or head[0][0] != "s" or not re.match(r"\s*SELECT\b", head[0][1], re.I):
        c.on_path("D03.columns", p, None, "the query is not understood", f); return
    lits = " ".join(x[1] for x in ps if x[0] == "s")
    bad = re.search(r"\b(DISTINCT|LIMIT|GROUP\s+BY|OFFSET|TOP|UNION|EXCEPT|HAVING)\b", lits, re.I)
    c.on_path("D03.all-rows", p, not bad, f"the query does not give every matching row once: {bad and bad.group(0)}", f)
    first = re.sub(r"^\s*SELECT\b", "", head[0][1], flags=re.I).strip()
    first = re.sub(r"^ALL\b", "", first, flags=re.I).strip()
    if first:
        c.on_path("D03.columns", p, False if first.startswith("*") else None, f"the query does not ask for the requested columns: {first!r}", f); return
    if len(head) < 2 or head[1][0] != "join": c.on_path("D03.columns", p, None, "the requested columns are not understood", f); return
    sep, lst = head[1][1:]
    b, how = strip_seq(lst)
    if b == cols: ok = how == "all"
    else:
        its = p.seq(lst); ok = None
        if its and len(its) == 1 and its[0].kind == "one" and len(its[0].chain) == 1:
            L = its[0].chain[0][0]; C = el(p.eng, cols, L); t = clause(p, pieces(p, its[0].val), lambda x: x == C)
            ok = over(p, L, cols) and (True if t and re.fullmatch(r"[\"`]?\0C[\"`]?", t) else None)
        elif its and any(i.kind == "skip" for i in its) and all(len(i.chain) == 1 and covers(p, i.chain[0][0], cols) for i in its): ok = False
    c.on_path("D03.columns", p, ok and sep.strip() == ",", "the result does not have the requested columns in their order", f)
    rest = head[2:]
    ok = len(rest) >= 2 and rest[0][0] == "s" and re.fullmatch(r"\s+FROM\s+[\"`]?", rest[0][1], re.I) and rest[1] == ("v", table)
    c.on_path("D03.table", p, True if ok else False if any(x == ("v", SELF) for x in rest) else None, "the query is not on the given table", f)


def rows_of(c, p, f, cur, v):
    """the result of select: list(row) for each row of the cursor"""
    def source(d):
        """'all' when d gives all rows of the cursor"""
        b, how = strip_seq(d)
        if b == cur: return how
        if is_t(b, "call") and b[3] == cur:
            return how if b[2] == "fetchall" else "part" if b[2] in ("fetchone", "fetchmany") else None
        return None
    w = source(v)
    if w is not None:
        if is_t(v, "list") or is_t(v, "call"): c.on_path("D03.rows", p, False, "rows are not returned as lists, or not all are returned", f); return
    b, how = strip_seq(v)
    if how != "all" or prepended(p, b): c.on_path("D03.rows", p, False, f"the rows are not returned in order, or not all", f); return
    if is_t(b, "set") or is_t(b, "dict"): c.on_path("D03.rows", p, False, "equal rows are merged", f); return
    its = p.seq(b)
    if its is None: c.on_path("D03.rows", p, None, "the result is not understood", f); return
    if not its: c.on_path("D03.rows", p, False if not p.st.loops else None, "no rows are returned", f); return
    for i in its:
        if len(i.chain) != 1: c.on_path("D03.rows", p, None, "the result is not understood", f); continue
        L = i.chain[0][0]; d = p.eng.loops[L].dom
        w = source(d)
        if w is None: c.on_path("D03.rows", p, None, "the loop over the rows is not understood", f); continue
        if w != "all" or p.st.loops.get(L, ("all",))[0] != "all": c.on_path("D03.rows", p, False, "not all rows are returned, in order", f); continue
        if i.kind == "skip": c.on_path("D03.rows", p, False, "a row is dropped", f); continue
        r = T("item", strip_seq(d)[0], idx(L))
        if i.kind == "one" and is_t(i.val, "list") and i.val == T("list", ("spread", r)): ok = True
        elif i.kind == "one" and i.val == T("listof", r): ok = True
        elif i.kind == "one" and (i.val == r or is_t(i.val, "tupof") or i.val[0] == "tup" or is_t(i.val, "set") or is_t(i.val, "dict") or is_t(i.val, "item") or is_t(i.val, "reversed") or is_t(i.val, "slice") or is_t(i.val, "sorted")): ok = False
        elif i.kind == "one" and is_t(i.val, "list"):
            xs = p.seq(i.val); ok = None
            if xs and len(xs) == 1 and xs[0].kind == "one" and len(xs[0].chain) == 1 and covers(p, xs[0].chain[0][0], r) == "all": ok = xs[0].val == T("item", r, idx(xs[0].chain[0][0])) or None
            elif xs and all(x.kind in ("one", "skip") and len(x.chain) == 1 and x.chain[0][0] == xs[0].chain[0][0] for x in xs) and covers(p, xs[0].chain[0][0], r) == "all":
                e_ = T("item", r, idx(xs[0].chain[0][0])); ok = True if all(x.kind == "one" and x.val == e_ for x in xs) else False if any(x.kind == "skip" or is_k(x.val) and norm_eq(e_, x.val) not in [a for a, t in x.facts.items() if t] and not (x.val == NONE and ("isnone", e_) in x.facts) for x in xs) else None
        else: ok = None
        c.on_path("D03.rows", p, ok, "a row is not returned as the list of its values", f)


def cursor_call(cur):
    return cur if is_t(cur, "call") and cur[2] == "cursor" else None


def cursor_shape(c, p, f, cname, cur):
    """the cursor gives tuples whatever the connection is set to"""
    src = c.prog.cls(cname).module.source if hasattr(c.prog.cls(cname).module, "source") else open(c.prog.cls(cname).module.path, encoding="utf-8").read()
    call = cursor_call(cur)
    if call is None: c.on_path("D03.cursor", p, None, "the cursor is not understood", f); return
    kw = dict(call[5]) if len(call) > 5 else {}
    if "import psycopg2" in src: want = ("cursor_factory", "psycopg2.extensions.cursor")
    elif "import psycopg" in src: want = ("row_factory", "psycopg.rows.tuple_row")
    else:
        bad = [k for k in kw if k in ("dictionary", "named_tuple", "raw", "row_factory")]
        c.on_path("D03.cursor", p, not bad if not kw or bad else None, "the cursor does not give rows of values in column order", f); return
    v = kw.get(want[0])
    c.on_path("D03.cursor", p, True if v == ("ext", want[1]) else False, "the cursor can give rows as dictionaries or objects, depending on the connection", f)


def sql_select(c, cname):
    cl = c.prog.cls(cname); f = cl.find("select"); table, cols, vals = (param(x) for x in f.params[1:4])
    for p in c.method(cname, "select"):
        yield p, f, table, cols, vals, executes(p)


def query_of(c, key, p, f, ex):
    if p.raises:
        c.on_path(key + ".raises", p, False if p.v[3] == "explicit" else None, "the query raises an error itself", f); return None
    if len(ex) != 1 or ex[0][1] or ex[0][0].d["name"] != "execute":
        c.on_path(key + ".query", p, False if not ex and not p.imprecise else None, "not exactly one query is executed", f); return None
    return ex[0][0]


def text_check(c, key, p, f, e, vals):
    """no value is part of the text of the query"""
    bad = None; ok = True
    for v in closure(p, e.args[0], p.st.loops):
        if holds_value(v, vals):
            ok = False if v in vals or is_t(v, "item") or is_t(v, "str") or is_t(v, "join") or v[0] == "ref" or is_t(v, "call") and v[2] in ("repr", "format") else None if ok is not False else ok
            bad = v
    c.on_path(key, p, ok, f"a value becomes part of the text of the query: {show(bad)[:80] if bad else ''}", f)


@spec("D01", least=8)
def D01(c):
    kinds = adapters(c)
    for cname, kind in kinds.items():
        cl = c.prog.cls(cname)
        if kind == "sql":
            for m in ("select", "insert", "delete"):
                f = cl.methods.get(m)
                if f is None: continue
                vals = {param(x) for x in f.params[3:]}
                for p in c.method(cname, m):
                    for e, ch, fa in executes(p):
                        text_check(c, "D01.parameter", p, f, e, vals)
                        c.callsites += 1
        elif kind == "sparql": c.guard("D01.sparql", cname, sparql_text, c, cname)
    other_queries(c, kinds)


def other_queries(c, kinds):
    """queries executed elsewhere in the library are constants"""
    for f in c.prog.all_functions():
        if f.cls and f.cls.name in kinds: continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("execute", "executescript", "executemany") and n.args:
                ok = isinstance(n.args[0], ast.Constant)
                c.ob("D01.constant", True if ok else None, c.where(f, n.lineno), "a query outside the data sources is not a constant text"); c.callsites += 1


LITERAL = re.compile(r"""(?:[^'\\\n\r]|\\[tbnrf"'\\]|\\u[0-9A-Fa-f]{4})*""")
IRI = re.compile(r"""[^\x00-\x20<>"{}|^`\\]*""")
ALPHABET = [chr(i) for i in range(0, 256)] + ["\u2028", "\u4e00"]


def image(c, p, v, term, ch):
    """the text that the escaping chain v makes of the one-character value ch: a string, ('re', text) or None when v is not character-wise"""
    if v == term: return ch
    if is_t(v, "str"): return image(c, p, v[2], term, ch)
    if is_t(v, "call") and v[2] == "replace" and len(v[4]) == 2 and all(is_k(a) and isinstance(kv(a), str) for a in v[4]) and len(kv(v[4][0])) == 1:
        b = image(c, p, v[3], term, ch)
        return None if not isinstance(b, str) else b.replace(kv(v[4][0]), kv(v[4][1]))
    if is_t(v, "call") and v[2] in ("re.sub", "sub") and len(v[4]) == 3 and is_k(v[4][0]):
        b = image(c, p, v[4][2], term, ch)
        if not isinstance(b, str): return None
        try: rx = re.compile(kv(v[4][0]))
        except re.error: return None
        rep = v[4][1]
        if is_k(rep):
            try: return rx.sub(kv(rep), b)
            except (re.error, IndexError): return None
        if not rx.search(b): return b
        if rx.fullmatch(b): return hexa(c, p, rep)
        return None
    if is_t(v, "call") and v[2].split(".")[-1] in ("quote", "quote_plus"):
        import urllib.parse
        kw = dict(v[5]) if len(v) > 5 else {}
        safe = kw.get("safe", v[4][1] if len(v[4]) > 1 else K("/"))
        b = image(c, p, v[4][0], term, ch)
        return urllib.parse.quote(b, safe=kv(safe)) if isinstance(b, str) and is_k(safe) else None
    return None


def hexa(c, p, fn):
    """the replacement function gives a constant with hexadecimal digits: an example of it"""
    f = fn_func(c, fn, p.eng) if isinstance(fn, tuple) else None
    node = getattr(f, "node", None)
    body = getattr(node, "body", None)
    if isinstance(body, list): body = body[-1].value if len(body) == 1 and isinstance(body[-1], ast.Return) else None
    if body is None: return None
    if isinstance(body, ast.Call) and isinstance(body.func, ast.Attribute) and body.func.attr == "format" and isinstance(body.func.value, ast.Constant):
        t = re.sub(r"\{\d*:0?\d*[Xxd]\}", "2A", body.func.value.value)
        return t if "{" not in t else None
    if isinstance(body, ast.JoinedStr):
        t = ""
        for x in body.values:
            if isinstance(x, ast.Constant): t += x.value
            elif x.format_spec is not None and re.fullmatch(r"0?\d*[Xxd]", "".join(getattr(y, "value", "?") for y in x.format_spec.values)): t += "2A"
            else: return None
        return t
    if isinstance(body, ast.BinOp) and isinstance(body.op, ast.Mod) and isinstance(body.left, ast.Constant):
        t = re.sub(r"%0?\d*[Xxd]", "2A", body.left.value.replace("%%", "\0")).replace("\0", "%")
        return t
    return None


def sparql_text(c, cname):
    cl = c.prog.cls(cname); f = cl.find("prepare_term")
    if f is None: c.ob("D01.escaped", None, c.where((cname, "select")), "no function found that makes the terms of a query"); return
    term = param(f.params[1])
    for p in c.method(cname, "prepare_term"):
        if p.raises: c.on_path("D01.raises", p, True, "", f); continue
        v = p.v
        if not contains(v, term): c.on_path("D01.escaped", p, True, "", f); continue
        if p.dec(("isinst", term, "str")) is False: c.on_path("D01.escaped", p, True, "a number", f); continue
        ps = pieces(p, v)
        const = any(t and a[0] == "eq" and K("constant") in a for a, t in p.facts.items())
        if const: c.on_path("D01.constant-column", p, True, "a column declared as holding constants", f); continue
        k = [i for i, x in enumerate(ps) if x[0] == "v" and contains(x[1], term)]
        if len(k) != 1 or not 0 < k[0] < len(ps) - 1 or ps[k[0] - 1][0] != "s" or ps[k[0] + 1][0] != "s":
            c.on_path("D01.escaped", p, False if len(ps) == 1 else None, "a value is placed in the query as it is", f); continue
        open_, x, close = ps[k[0] - 1][1][-1:], ps[k[0]][1], ps[k[0] + 1][1][:1]
        rule = LITERAL if (open_, close) in (("'", "'"), ('"', '"')) else IRI if (open_, close) == ("<", ">") else None
        if rule is None: c.on_path("D01.escaped", p, None, f"the quotes around the value are not understood: {open_!r} {close!r}", f); continue
        bad = None; ok = True
        for ch in ALPHABET:
            im = image(c, p, x, term, ch)
            if im is None: ok = None; break
            if rule is LITERAL and open_ == '"': im = im.replace("'", "\0").replace('"', "'").replace("\0", '"')
            if not rule.fullmatch(im): ok = False; bad = ch; break
        c.on_path("D01.escaped", p, ok, f"the character {bad!r} in a value ends or changes the term in the query", f)
    # the query is made of prepared terms only
    for m in ("do_select", "select"):
        g = cl.find(m)
        if g: break
    vals = {param(g.params[3])}; seen = 0
    for p in c.method(cname, m, opaque={"prepare_term", "prepare_variables", "prepare_text_variables", "prepare_results"}):
        for e, ch, fa in p.events("call"):
            if not (e.d["name"].startswith("requests.") or e.d["name"] in ("get", "post") and e.d.get("recv") is not None): continue
            seen += 1; ok = True; bad = None
            for y in list(e.args) + list((e.d.get("kwargs") or {}).values()):
                for z in unprepared(y, vals):
                    ok = False if z in vals or is_t(z, "item") or is_t(z, "str") else None; bad = z
            c.on_path("D01.prepared", p, ok, f"a value is placed in the query without being prepared: {show(bad)[:60] if bad else ''}", g); c.callsites += 1
    c.ob("D01.found", True if seen else None, c.where(g), "requests of the Sparql source analysed")
    # what is asked for: the names of variables come from the terms, not from the values
    h = cl.find("prepare_variables")
    if h:
        for p in c.method(cname, "prepare_variables"):
            if p.raises: continue
            c.on_path("D01.variables", p, not holds_value(p.v, {param(h.params[1])}) or None, "a value is used as the name of a variable", h)


def unprepared(v, vals):
    """parts of v that hold a value outside a prepared term"""
    if not isinstance(v, tuple) or not v: return
    if is_t(v, "call") and v[2].startswith("prepare_"): return
    if v in vals or is_t(v, "item") and v[2] in vals: yield v; return
    if is_t(v, "len") or is_t(v, "phi"): return
    if isinstance(v, tuple):
        for x in v: yield from unprepared(x, vals)


# ---------------------------------------------------------------- D02
@spec("D02", least=25)
def D02(c):
    for cname, kind in adapters(c).items():
        if kind == "sql": c.guard("D02." + cname, cname, sql_restrictions, c, cname)
        elif kind == "store": c.guard("D02." + cname, cname, store_select, c, cname, "D02")
        else:
            c.guard("D02." + cname, cname, sparql_open, c, cname)
            c.guard("D02." + cname, cname, sparql_rows, c, cname, "D02")


def sql_restrictions(c, cname):
    mark = placeholder(c, cname); n = 0
    for p, f, table, cols, vals, ex in sql_select(c, cname):
        e = query_of(c, "D02", p, f, ex)
        if e is None: continue
        w = where_part(p, pieces(p, e.args[0]))
        if w is None:
            some = [L for L in p.st.loops if column_loop(p, L, cols, vals)]
            al = [a for L in some for i, a in alternatives(p, L)]
            ok = True if some and all(Path(p.eng, fstate(a.facts), "return", NONE).dec(("isnone", el(p.eng, vals, L))) is True for L in some for i, a in alternatives(p, L)) else None
            if ok is None and not any(contains(x, vals) for x in p.facts): ok = False
            c.on_path("D02.only-none", p, ok, "the query has no restrictions", f); continue
        n += conditions(c, "D02", p, f, w, cols, vals, mark)
        if len(e.args) < 2: c.on_path("D02.parameters", p, False, "no parameters are passed", f); continue
        arguments(c, "D02.parameters", p, f, e.args[1], cols, vals)
    c.ob("D02.found", True if n else None, c.where((cname, "select")), f"restrictions of {cname}")


def store_select(c, cname, key):
    """a source that keeps its records itself: which records and what of them is returned"""
    cl = c.prog.cls(cname); f = cl.find("select"); table, cols, vals = (param(x) for x in f.params[1:4]); n = some = 0
    store = T("item", attr(SELF, "store"), table)
    for p in c.method(cname, "select"):
        if p.raises: c.on_path(key + ".raises", p, False if p.v[3] == "explicit" else None, "the query raises an error itself", f); continue
        its = p.seq(p.v)
        has = p.dec(("in", table, attr(SELF, "store")))
        if has is False and its == []: continue
        if its is None: c.on_path(key + ".rows", p, None, "the result is not understood", f); continue
        if prepended(p, p.v): c.on_path(key + ".rows", p, False, "the records are not returned in order", f); continue
        if not its and not any(contains(p.eng.loops[L].dom, attr(SELF, "store")) for L in p.st.loops): c.on_path(key + ".rows", p, False, "nothing is found in a table that is there", f); continue
        for i in its:
            Ls = [L for L, _ in i.chain]
            if not Ls: c.on_path(key + ".rows", p, None, "a row that is not from the store", f); continue
            L = Ls[0]; d = strip_seq(p.eng.loops[L].dom)[0]
            R = None
            if d == store or is_call(d, "get") or contains(d, attr(SELF, "store")) and contains(d, table): R = T("item", d, idx(L))
            if R is None: c.on_path(key + ".rows", p, None, "the loop over the records is not understood", f); continue
            w = covers(p, L, d)
            if key == "D03": c.on_path("D03.all-rows", p, w == "all", "not every record is looked at, in order", f)
            n += 1; some += i.kind != "skip"
            if key == "D02":
                ok = matched(p, i, R, cols, vals, i.kind != "skip")
                c.on_path("D02.record", p, ok, "a record is found that does not match, or one that matches is not found", f)
            elif i.kind == "skip": c.on_path("D03.all-rows", p, matched(p, i, R, cols, vals, False), "a record that matches is dropped", f)
            else: c.on_path("D03.rows", p, record_row(p, i, R, cols), "a row is not the list of the requested columns of the record, in order", f)
    c.ob(key + ".found", (some > 0) if n else None, c.where(f), f"records of {cname}")


def mismatch(p, facts, R, L, crit):
    """do the facts of one turn over the criteria say that record R differs (True), agrees (False), or nothing (None); also whether the value is None"""
    q = Path(p.eng, fstate(facts), "return", NONE)
    k, v = crit
    none = q.dec(("isnone", v))
    there = q.dec(("in", k, R))
    same = q.dec(norm_eq(v, T("item", R, k)))
    if there is False: return ("absent", none)
    for g in (T("call", "get", R, (k,), (), (0,)),):
        s2 = q.dec(norm_eq(v, g))
        if s2 is not None: same = s2
    return (None if same is None else "same" if same else "other", none)


def criteria(p, L, cols, vals):
    """(key, value) of a turn of loop L over the criteria; filtered: columns with None are not among them"""
    lp = p.eng.loops[L]; d, how = strip_seq(lp.dom)
    if how == "part" and (is_t(d, "items") or is_t(d, "dict")): return ((NONE, NONE)), "lost"
    if covers(p, L, cols) == "all" and (covers(p, L, vals) == "all"): return (el(p.eng, cols, L), el(p.eng, vals, L)), False
    if is_t(d, "items"):
        D = d[2]; its = p.seq(D)
        if its and all(i.kind in ("put", "skip") and len(i.chain) == 1 for i in its):
            return (T("item", T("keys", D), idx(L)), T("item", D, T("item", T("keys", D), idx(L)))), dict_filter(p, its, cols, vals)
    if is_t(d, "dict") or is_t(d, "keys"):
        D = d[2] if is_t(d, "keys") else d; its = p.seq(D)
        if its and all(i.kind in ("put", "skip") and len(i.chain) == 1 for i in its):
            K_ = T("item", d, idx(L))
            return (K_, T("item", D, K_)), dict_filter(p, its, cols, vals)
    return None


def dict_filter(p, its, cols, vals):
    """the criteria hold exactly the columns whose value is not None: 'ok', 'lost' (another value is left out), 'none' (None can be among them), 'all', or None"""
    kind = "all"; v = None
    for i in its:
        L = i.chain[0][0]; v = el(p.eng, vals, L); k = el(p.eng, cols, L)
        n = Path(p.eng, fstate(i.facts), "return", NONE).dec(("isnone", v))
        if i.kind == "skip":
            if n is not True: return "lost"
            kind = "ok" if kind == "all" else kind
        else:
            if i.key != k or i.val != v: return "wrong"
            if n is not False: kind = "none" if n is None and any(x.kind == "skip" for x in its) else kind
    return kind


def matched(p, i, R, cols, vals, found):
    """the record of item i is found exactly when every criterion agrees"""
    a_facts = i.facts; L0 = i.chain[0][0]; alt = p.eng.loops[L0].alts[i.chain[0][1]]
    # a flag that is cleared by a difference
    best = None
    for L, lp in p.eng.loops.items():
        if L == L0: continue
        cr = criteria(p, L, cols, vals)
        if cr is None: continue
        (k, v), flt = cr
        if flt in ("lost", "wrong"): return False
        flags = {n for n, iv in lp.phi_init.items()}
        used = [(a, t) for a, t in a_facts.items() if a[0] == "truthy" and is_t(a[1], "phi") and a[1][2] == L]
        if used:
            (a, t), = used[:1]; name = a[1][3]; iv = lp.phi_init.get(name); me = T("phi", L, name)
            if iv not in (K(True), K(False)): continue
            good = kv(iv)                  # the flag's value as long as all agree
            if (t == good) != found: return False
            ok = True
            for al in lp.alts:
                m, none = mismatch(p, al.facts, R, L, (k, v))
                nx = al.next.get(name, me)
                if nx == me: keeps = True
                elif nx in (K(True), K(False)): keeps = kv(nx) == good
                else: keeps = None
                if keeps is None and not contains(nx, me) and not lp.exits: return False     # only the last criterion counts
                if m is None and none is not True and not any(contains(a, R) for a in al.facts): return False     # whatever the record holds
                ok = both(ok, turn(m, none, flt, keeps, nx == me))
            best = ok if best is None else best and ok
            continue
        if L in alt.loops or any(e.kind == "loop" and e.d["L"] == L for e in alt.trace):
            mode, al = alt.loops.get(L, ("all", None))
            turns = [x for j, x in enumerate(lp.alts) if al is None or j in al]
            if mode == "all" and found:
                ok = True
                for x in turns:
                    m, none = mismatch(p, x.facts, R, L, (k, v)); ok = both(ok, turn(m, none, flt, True, True))
                best = ok if best is None else best and ok
            elif not found and mode == "prefix":
                # left at this criterion: it must differ
                m, none = mismatch(p, {**alt.facts, **a_facts}, R, L, (k, v)); ok = turn(m, none, flt, False, False)
                best = ok if best is None else best and ok
            elif not found: return best
    return best


def both(a, b): return False if a is False or b is False else None if a is None or b is None else True


def turn(m, none, flt, keeps, same):
    """one criterion: keeps the record iff it agrees (a criterion with None agrees with everything)"""
    if m is None and none is True and flt is not None: return True if keeps else False
    if m is None: return None if keeps is not True else False if none is False else None
    if keeps is None: return None
    if m == "same": return keeps and same if keeps else False
    if m == "absent":
        if keeps: return True if none is True or flt == "ok" and none is True else False
        return True if flt == "ok" or none is False else None if none is None else False
    return (not keeps) if flt in ("ok",) or none is False else (True if none is True and keeps else None if none is None else False)


def record_row(p, i, R, cols):
    xs = p.seq(i.val) if is_t(i.val, "list") else None
    if xs is None: return False if is_t(i.val, "tupof") or is_t(strip_seq(i.val)[0], "values") or is_t(i.val, "values") or i.val[0] == "tup" or i.val == R or is_t(i.val, "set") else None
    if not xs: return False
    for x in xs:
        if len(x.chain) != 1: return None
        L = x.chain[0][0]; w = covers(p, L, cols); D = p.eng.loops[L].dom
        if w is None: return False if is_t(D, "values") or D == R or is_t(D, "keys", "items") and D[2] == R else None
        if w != "all": return False
        if x.kind == "skip": return False
        k = el(p.eng, cols, L)
        there = Path(p.eng, fstate(x.facts), "return", NONE).dec(("in", k, R))
        if x.kind != "one": return None
        if x.val == T("item", R, k) or is_call(x.val, "get", R) and x.val[4][:1] == (k,): continue
        if x.val == NONE and there is False: continue
        return False if not contains(x.val, R) or is_t(x.val, "item") else None
    return True


def open_list(p, h, vs, ts, what):
    """a list collected by one loop over the columns: exactly the terms of the open ones"""
    if len(p.st.loops) != 1: return None
    L = next(iter(p.st.loops)); cols = param(h.params[3]) if what else None
    if covers(p, L, ts) != "all": return None if covers(p, L, ts) is None else False
    its = p.seq(p.v); v, t = el(p.eng, vs, L), el(p.eng, ts, L); ok = True; coll = False
    if its is None: return None
    if its and all(not i.chain for i in its):
        # nothing was collected: all columns are given
        if not (len(its) == 1 and its[0].kind == "one" and its[0].val == K("*") and not what): return None
        coll = True
    by = {}
    for i in its:
        if i.chain: by.setdefault(i.chain[0][1], []).append(i)
    for j, a in alternatives(p, L):
        q = Path(p.eng, fstate({**p.facts, **a.facts}), "return", NONE)
        o = q.dec(("isnone", v)); x = q.dec(norm_eq(K(what), el(p.eng, cols, L))) if what else True
        want = False if o is False or x is False else True if o and x else None
        if coll: got = any(g[0] == "one" for em in a.emits.values() for g in em)
        else:
            got = [i for i in by.get(j, []) if i.kind != "skip"]
            if any(i.kind != "one" or i.val != t for i in got) or len(got) > 1: return None
            got = bool(got)
        if want is None: ok = None if not got else False if o is None and not contains(p.v, v) and not any(contains(f, v) for f in a.facts) else None
        elif want != got: return False
    return ok


def both_values(d, vals):
    """the domain of a loop that visits the two values, or their positions"""
    if d == vals or d == T("range", K(0), K(2), K(1)): return True
    return is_t(d, "slice") and d[2] == vals and d[3] in (NONE, K(0)) and d[4] in (NONE, K(2)) and d[5] in (NONE, K(1))


def mentions(p, v, t):
    """t is in v, or in something that is collected from t"""
    if contains(v, t): return True
    for x in subterms(v):
        if x and x[0] == "acc" and x[1] in p.eng.loops:
            lp = p.eng.loops[x[1]]
            if contains(lp.dom, t) or any(contains(g, t) for a in lp.alts for em in a.emits.values() for g in em): return True
        if is_t(x, "phi") and x[2] in p.eng.loops and (contains(p.eng.loops[x[2]].dom, t) or any(contains(y, t) for a in p.eng.loops[x[2]].alts for y in a.next.values())): return True
    return False


def sparql_open(c, cname):
    cl = c.prog.cls(cname); f = cl.find("prepare_term"); term, ix, cols = (param(x) for x in f.params[1:4])
    for p in c.method(cname, "prepare_term"):
        if p.raises: continue
        n = p.dec(("isnone", term))
        ps = pieces(p, p.v)
        isvar = ps and ps[0][0] == "s" and ps[0][1].startswith("?")
        if isvar: c.on_path("D02.only-none", p, n is True, "a value other than None leaves the column open", f)
        else: c.on_path("D02.only-none", p, n is False and mentions(p, p.v, term) if n is not None else False, "a column with None restricts the query, or a value does not", f)
        if isvar: c.on_path("D02.distinct", p, contains(p.v, ix), "two open columns share a variable", f)
    g = cl.find("do_select") or cl.find("select"); table, cols, vals = (param(x) for x in g.params[1:4]); n = 0
    prep = lambda i: None
    for p in c.method(cname, g.name, opaque={"prepare_term", "prepare_variables", "prepare_text_variables", "prepare_results", "create_query"}):
        ts = [e for e, ch, fa in p.calls("prepare_term")]
        for e in ts:
            a = e.args
            if len(a) > 1 and is_t(a[1], "idx"):
                # in a loop over the (two) values
                d = dom_of(p.eng, a[1][2]); two = both_values(d, vals)
                c.on_path("D02.own-column", p, True if two and a[0] in (T("item", vals, a[1]), T("item", d, a[1])) else None, "a term is made of the value of another column", g)
                if len(a) > 2: c.on_path("D02.own-column", p, a[2] == cols, "a term is prepared for other columns", g)
                continue
            if len(a) < 2 or not is_k(a[1]): c.on_path("D02.own-column", p, None, "the preparation of a term is not understood", g); continue
            c.on_path("D02.own-column", p, a[0] == T("item", vals, a[1]), "a term is made of the value of another column", g)
            if len(a) > 2: c.on_path("D02.own-column", p, a[2] == cols, "a term is prepared for other columns", g)
        for e, ch, fa in p.calls("create_query"):
            n += 1; want = [e2.result for e2 in sorted(ts, key=lambda x: kv(x.args[1]) if is_k(x.args[1]) else 9)]
            ok = any(x == T("list", *[("one", y) for y in want]) for x in e.args)
            for x in e.args:
                its = p.seq(x) if is_t(x, "list") else None
                if its and len(its) == 1 and its[0].kind == "one" and len(its[0].chain) == 1 and its[0].val in want and both_values(dom_of(p.eng, its[0].chain[0][0]), vals) \
                   and p.st.loops.get(its[0].chain[0][0], ("all", None))[0] == "all": ok = True
            c.on_path("D02.own-column", p, True if ok else None, "the terms of the query are not understood", g)
    for m, what in (("prepare_text_variables", "text"), ("prepare_variables", None)):
        h = cl.find(m)
        if h is None: continue
        vs, ts = param(h.params[1]), param(h.params[2])
        for p in c.method(cname, m):
            if p.raises: continue
            if is_t(p.v, "list") and (p.st.loops or any(x[0] == "acc" for x in p.v[2:])): c.on_path("D02.open", p, open_list(p, h, vs, ts, what), "an open column is limited to a language though it holds no text, or is not" if what else "the query does not ask for the values of exactly the open columns", h); continue
            if not is_t(p.v, "list") or not all(x[0] == "one" for x in p.v[2:]): c.on_path("D02.open", p, None, "the open columns are not understood", h); continue
            got = [x[1] for x in p.v[2:]]; ok = True; none = 0
            for i in (0, 1):
                o = p.dec(("isnone", T("item", vs, K(i)))); t = p.dec(norm_eq(K(what), T("item", param(h.params[3]), K(i)))) if what else True
                want = False if o is False or t is False else True if o and t else None
                none += o is False
                ok = both(ok, None if want is None else want == (T("item", ts, K(i)) in got))
                if want is None and what: ok = False
            if not what and none == 2: ok = both(ok, got == [K("*")])
            elif any(x not in (T("item", ts, K(0)), T("item", ts, K(1))) for x in got): ok = False
            c.on_path("D02.open", p, ok, "an open column is limited to a language though it holds no text, or is not" if what else "the query does not ask for the values of exactly the open columns", h)
    h = cl.find("create_query")
    if h:
        terms = param(h.params[3]); tb = param(h.params[4])
        for p in c.method(cname, "create_query"):
            ps = [x for x in pieces(p, p.v)]
            vs = [x[1] for x in ps if x[0] == "v"]
            pos = [vs.index(T("item", terms, K(i))) if T("item", terms, K(i)) in vs else None for i in (0, 1)]
            pt = vs.index(tb) if tb in vs else None
            ok = None if None in pos or pt is None else pos[0] < pt < pos[1]
            c.on_path("D02.own-column", p, ok, "the query does not have the first term, the predicate and the second term in this order", h)
            lit = " ".join(x[1] for x in ps if x[0] == "s")
            c.on_path("D02.all-apply", p, not re.search(r"\b(OPTIONAL|UNION|MINUS|NOT\s+EXISTS)\b", lit), "a restriction of the query does not hold for all rows", h)


# ---------------------------------------------------------------- D03
@spec("D03", least=20)
def D03(c):
    for cname, kind in adapters(c).items():
        if kind == "sql":
            for p, f, table, cols, vals, ex in sql_select(c, cname):
                e = query_of(c, "D03", p, f, ex)
                if e is None: continue
                cur = e.d.get("recv")
                select_text(c, p, f, pieces(p, e.args[0]), cols, table)
                cursor_shape(c, p, f, cname, cur)
                rows_of(c, p, f, cur if not p.v == e.result else e.result, p.v)
        elif kind == "store": c.guard("D03." + cname, cname, store_select, c, cname, "D03")
        else: c.guard("D03." + cname, cname, sparql_rows, c, cname)


def sparql_rows(c, cname, pid="D03"):
    cl = c.prog.cls(cname); f = cl.find("prepare_results"); data, vals, terms = (param(x) for x in f.params[1:4])
    B = T("item", T("item", data, K("results")), K("bindings")); n = 0
    for p in c.method(cname, "prepare_results"):
        if p.raises: c.on_path(f"{pid}.raises", p, False if p.v[3] == "explicit" else None, "", f); continue
        b, how = strip_seq(p.v)
        if how != "all" or prepended(p, b): c.on_path(f"{pid}.rows", p, False, "the rows are returned in another order, or not all", f); continue
        its = p.seq(b)
        if is_t(b, "set"): c.on_path(f"{pid}.rows", p, False, "equal rows are merged", f); continue
        if not its: c.on_path(f"{pid}.rows", p, None if p.st.loops else False, "no rows are returned", f); continue
        for i in its:
            L = i.chain[0][0] if i.chain else None
            if L is None or len(i.chain) != 1: c.on_path(f"{pid}.rows", p, None, "the result is not understood", f); continue
            w = covers(p, L, B)
            if w is None: c.on_path(f"{pid}.rows", p, None, "the loop over the rows of the response is not understood", f); continue
            c.on_path(f"{pid}.all-rows", p, w == "all" and i.kind != "skip", "a row of the response is dropped or moved", f)
            if i.kind == "skip": continue
            xs = p.seq(i.val) if is_t(i.val, "list") else None
            if xs is None: c.on_path(f"{pid}.rows", p, False if i.val[0] == "tup" or is_t(i.val, "dict") else None, "a row is not a list", f); continue
            if any(x.chain[1:] or len(x.chain) > 1 for x in xs): pass
            row = [x for x in xs if x.kind != "skip"]
            if all(x.chain == i.chain or not x.chain for x in row):
                if len(row) != 2: c.on_path(f"{pid}.rows", p, False, "a row does not have one value per column", f); continue
                for j, x in enumerate(row): value(c, p, f, x, {**i.facts, **x.facts}, K(j), B, L, vals, terms, pid); n += 1
            else:
                for x in row:
                    ix = next((y for y in subterms(x.val) if isinstance(y, tuple) and y[:2] == ("t", "idx") and y != idx(L)), None)
                    if ix is None: c.on_path(f"{pid}.rows", p, None, "a value in a row is not understood", f); continue
                    value(c, p, f, x, {**i.facts, **x.facts}, ix, B, L, vals, terms, pid); n += 1
    c.ob(f"{pid}.found", True if n else None, c.where(f), "values in rows")
    g = cl.find("do_select") or cl.find("select")
    for p in c.method(cname, g.name, opaque={"prepare_term", "prepare_variables", "prepare_text_variables", "prepare_results", "create_query"}):
        if p.raises or not p.calls("prepare_results"): continue
        e = p.calls("prepare_results")[0][0]
        c.on_path(f"{pid}.rows", p, p.v == e.result or (False if strip_seq(p.v)[0] == e.result else None), "the rows of the response are not returned as they are", g)
        js = [x.result for x, ch, fa in p.calls("json")]
        c.on_path(f"{pid}.rows", p, True if e.args and e.args[0] in js and param(g.params[3]) in e.args else None, "the rows are not made of the response", g)
    h = cl.find("create_query")
    if h:
        for p in c.method(cname, "create_query"):
            lit = " ".join(x[1] for x in pieces(p, p.v) if x[0] == "s")
            bad = re.search(r"\b(DISTINCT|REDUCED|LIMIT|OFFSET|GROUP\s+BY)\b", lit, re.I)
            c.on_path(f"{pid}.all-rows", p, not bad, f"the query does not give every matching row once: {bad and bad.group(0)}", h)


def value(c, p, f, x, facts, j, B, L, vals, terms, pid):
    v = T("item", vals, j); q = Path(p.eng, fstate(facts), "return", NONE)
    n = q.dec(("isnone", v))
    if x.kind != "one": c.on_path(f"{pid}.rows", p, None, "a value in a row is not understood", f); return
    if x.val == v: c.on_path(f"{pid}.rows", p, n is False, "an open column gets no value", f); return
    if contains(x.val, T("item", B, idx(L))):
        var = [y for y in subterms(x.val) if is_t(y, "item") and y[2] == terms]
        ok = (n is True and all(y[3] == j for y in var) and bool(var)) if var else None
        got = [y for y in subterms(x.val) if is_t(y, "item") and y[3] == K("value") and contains(y, T("item", B, idx(L)))]
        if ok and got and x.val != got[0]: ok = False if is_t(x.val, "item") or is_t(x.val, "slice") or is_t(x.val, "call") and (x.val[2] in ("lower", "upper", "strip", "rstrip", "lstrip", "title", "replace", "removeprefix", "removesuffix", "int", "float", "re.sub", "round")) or x.val[0] == "t" and x.val[1] in ("int", "float") else None
        c.on_path(f"{pid}.rows", p, ok, "a value in a row is that of another column, or replaces a given value", f); return
    c.on_path(f"{pid}.rows", p, False if is_t(x.val, "item") or is_k(x.val) else None, "a value in a row is not that of its column", f)


# ---------------------------------------------------------------- D04
@spec("D04", least=12)
def D04(c):
    for cname, kind in adapters(c).items():
        if kind == "sparql":
            c.guard("D04.request", cname, statuses, c, cname)
            c.guard("D04.cache", cname, cache, c, cname)


def statuses(c, cname):
    cl = c.prog.cls(cname); f = cl.find("do_select") or cl.find("select"); n = 0
    for p in c.method(cname, f.name, opaque={"prepare_term", "prepare_variables", "prepare_text_variables", "prepare_results", "create_query"}):
        req = [e for e, ch, fa in p.calls() if e.d["name"].startswith("requests.")]
        hs = [e for e, ch, fa in p.events("handler")]
        if hs: c.on_path("D04.status", p, False if p.returns else None, "an error of the request is handled as an answer", f); continue
        if not p.returns: continue
        if len(req) != 1: c.on_path("D04.status", p, False if not req and not p.imprecise else None, "a result without a request", f); continue
        r = req[0].result; st = attr(r, "status_code"); n += 1
        chk = any(e.d["name"] == "raise_for_status" and e.d.get("recv") == r for e, ch, fa in p.calls())
        good = p.dec(norm_eq(K(200), st)) is True or p.dec(("truthy", attr(r, "ok"))) is True or chk or p.dec(norm_eq(st, attr(("ext", "requests.codes"), "ok"))) is True
        if not good:
            got = [admits(p, st, k) for k in (500, 502, 503, 404, 400, 401, 403, 429, 599)]
            rest = any(contains(a, r) and not contains(a, st) for a in p.facts)
            good = True if all(x is False for x in got) else False if True in got and not rest else None
        c.on_path("D04.status", p, good, "an error response of the endpoint is used as a result", f)
    c.ob("D04.found", True if n else None, c.where(f), "successful requests analysed")


def admits(p, st, k):
    """do the facts of the path allow the status k"""
    out = True
    for a, t in p.facts.items():
        if not contains(a, st): continue
        d = fold(Path(p.eng, fstate({}), "return", NONE), subst(a, {st: K(k)}))
        if d is None and a[0] == "in" and is_t(a[2], "list"): d = ("one", K(k)) in a[2][2:]
        if d is None: out = None
        elif d != t: return False
    return out


def cache(c, cname):
    cl = c.prog.cls(cname); f = cl.find("select"); table, cols, vals = (param(x) for x in f.params[1:4]); n = 0
    reads, writes, moves = [], [], []
    for p in c.method(cname, "select", opaque={"do_select"}):
        fresh = [e for e, ch, fa in p.calls("do_select")]
        loads = [e for e, ch, fa in p.calls() if e.d["name"] in ("pickle.load", "pickle.loads", "json.load", "json.loads", "load")]
        opens = [e for e, ch, fa in p.calls("open")]
        for e in fresh:
            c.on_path("D04.same-request", p, list(e.args) == [table, cols, vals], "the request is not for what was asked", f)
        if p.returns:
            n += 1
            ok = any(p.v == e.result for e in fresh) or any(p.v == e.result for e in loads)
            if not ok:
                b, how = strip_seq(p.v)
                ok = False if is_k(p.v) or p.v == EMPTY_LIST or any(b == e.result for e in fresh + loads) else None
            c.on_path("D04.answer", p, ok, "the answer is not the result of the request", f)
            on = p.dec(("truthy", attr(SELF, "result_cache_path")))
            if on is False and loads: c.on_path("D04.answer", p, False, "a cached answer without a cache", f)
        if any(p.v == e.result for e in loads) and p.returns:
            handled = [e for e, ch, fa in p.events("handler")]
            o = [x for x in opens if mode_of(x).startswith("r")]
            if len(o) != 1: c.on_path("D04.key", p, None, "the cache file is not understood", f)
            else: reads.append((p, o[0].args[0]))
        if fresh and p.raises is False:
            for x in opens:
                if mode_of(x)[:1] in "wxa": writes.append((p, x.args[0], x))
        for e, ch, fa in p.calls():
            if e.d["name"] in ("os.replace", "os.rename", "shutil.move", "replace", "rename") and len(e.args) >= 1: moves.append((p, e.args[0], e.args[1] if len(e.args) > 1 else None, e))
        for e, ch, fa in p.calls():
            if e.d["name"] in ("pickle.dump", "json.dump", "dump"):
                c.on_path("D04.result-cached", p, e.args[0] in [x.result for x in fresh], "what is stored in the cache is not the result of the request", f)
    rk = {v for p, v in reads}
    if not rk: c.ob("D04.key", None, c.where(f), "no reading of a cache found"); return
    if len(rk) > 1: c.ob("D04.key", None, c.where(f), "more than one cache file is read"); return
    key = rk.pop(); p0 = reads[0][0]
    for nm, v in (("table", table), ("columns", cols), ("values", vals)):
        c.ob("D04.key." + nm, distinguishes(p0, key, v), c.where(f), f"the cache key does not tell apart requests with other {nm}")
    for nm in ("url", "lang"):
        c.ob("D04.key." + nm, contains(key, attr(SELF, nm)), c.where(f), f"the cache key does not tell apart sources with another {nm}")
    for p, v, x in writes:
        c.on_path("D04.complete", p, v != key, "the cache file is written in place: an interrupted write leaves an incomplete answer", f)
    for p, a, b, e in moves:
        ok = b == key and any(v == a for _, v, _ in writes)
        c.on_path("D04.complete", p, True if ok else None, "the move of the cache file is not understood", f)
        if ok:
            ev = list(p.events())
            pos = next(i for i, (y, ch, fa) in enumerate(ev) if y is e)
            done = any(y.kind == "exit" and contains(y.d.get("ctx"), a) for y, ch, fa in ev[:pos]) or any(y.kind == "call" and y.d["name"] == "close" for y, ch, fa in ev[:pos])
            dumped = any(y.kind == "call" and y.d["name"] in ("pickle.dump", "json.dump", "dump", "write") for y, ch, fa in ev[:pos])
            c.on_path("D04.complete", p, done and dumped, "the cache file is put in place before it is complete", f)
            failed = next((y for y, ch, fa in ev[:pos] if y.kind == "handler"), None)
    if writes and not any(v == key for p, v, x in writes) and not moves: c.ob("D04.complete", False, c.where(f), "nothing is ever put in the cache")
    c.ob("D04.found", True if n >= 2 else None, c.where(f), "answers analysed")


EMPTY_LIST = T("list")


def mode_of(e):
    m = e.args[1] if len(e.args) > 1 else (e.d.get("kwargs") or {}).get("mode", K("r"))
    return str(kv(m)) if is_k(m) else "?"


def distinguishes(p, key, v):
    """v is part of the key as a whole (its text, not its length or a part)"""
    if not contains(key, v): return False
    whole = False
    for x in subterms(key):
        if is_t(x, "str") and x[2] == v or is_t(x, "call") and x[2] in ("str", "repr", "json.dumps", "pickle.dumps", "tuple") and v in x[4]: whole = True
        if is_t(x, "fstr") and v in x[2:]: whole = True
        if is_t(x, "bin") and v in x[3:]: whole = True
        if x and x[0] == "tup" and v in x[1:]: whole = True
    if whole: return True
    for x in subterms(key):
        if is_t(x, "len") and x[2] == v or is_t(x, "item") and x[2] == v or is_t(x, "slice") and x[2] == v or is_t(x, "sorted") and x[2] == v or is_t(x, "set") and contains(x, v): return False
    return None


# ---------------------------------------------------------------- D05
@spec("D05", least=6)
def D05(c):
    f = c.prog.method("CsvImporter", "import_table_from_file"); table, path, ds = (param(x) for x in f.params[1:4]); n = 0
    for p in c.method("CsvImporter", "import_table_from_file"):
        if p.raises: c.on_path("D05.raises", p, False if p.v[3] == "explicit" else None, "the import raises an error", f); continue
        rd = [e for e, ch, fa in p.calls() if e.d["name"] in ("csv.reader", "csv.DictReader")]
        if len(rd) != 1 or rd[0].d["name"] != "csv.reader": c.on_path("D05.read", p, None, "the reading of the file is not understood", f); continue
        R = rd[0].result
        o = [e for e, ch, fa in p.calls("open")]
        c.on_path("D05.read", p, True if len(o) == 1 and o[0].args[:1] == (path,) and contains(R, o[0].result) else None, "another file is read", f)
        kw = rd[0].d.get("kwargs") or {}
        d = kw.get("delimiter"); c.on_path("D05.read", p, d is None or d == K(","), "the file is split at another character than the comma", f)
        ls = [L for L in p.eng.loops if strip_seq(p.eng.loops[L].dom)[0] == R]
        if len(ls) != 1: c.on_path("D05.every-row", p, None, "the loop over the rows is not understood", f); continue
        L = ls[0]; lp = p.eng.loops[L]
        c.on_path("D05.every-row", p, over(p, L, R), "not every row is read, in order", f)
        row = T("item", strip_seq(lp.dom)[0], idx(L))
        pre = [e for e, ch, fa in p.calls("next") if not ch and e.args[:1] == (R,)]
        stored = 0
        away = [e for e, ch, fa in p.calls("insert") if e.d.get("recv") == ds and (not ch or ch[0][0] != L)]
        if away: c.on_path("D05.every-row", p, None, "the rows are stored elsewhere than where they are read", f); n += 1; continue
        for i, a in alternatives(p, L):
            ins = [(e, ch) for e, ch, fa in walk_trace(p.eng, a.trace, a.loops, ((L, i),), {**p.facts, **a.facts}, "call", ("insert",), True) if e.d.get("recv") == ds]
            q = Path(p.eng, fstate({**p.facts, **a.facts}), "return", NONE)
            filled = q.dec(("truthy", row))
            h = header_turn(p, L, a, row, pre)
            n += 1
            if any(ch != ((L, i),) for e, ch in ins): c.on_path("D05.once", p, None, "rows are inserted in an inner loop", f); continue
            if h == "header":
                c.on_path("D05.header", p, not ins, "the header row is stored", f); continue
            if h is None and not ins and filled is not False: c.on_path("D05.every-row", p, None if not (q.facts and any(contains(x, row) for x in a.facts)) else False, "a row is not stored", f); continue
            if not ins: c.on_path("D05.every-row", p, True if filled is False else False, "a row that is not empty is not stored", f); continue
            c.on_path("D05.once", p, len(ins) == 1, "a row is stored more than once", f)
            c.on_path("D05.not-empty", p, filled is True, "an empty row is stored", f); stored += 1
            if h is None: c.on_path("D05.header", p, None if not pre else True, "what is the header row is not understood", f)
            e = ins[0][0]; ar = list(e.args)
            if len(ar) != 3: c.on_path("D05.columns", p, None, "the insert is not understood", f); continue
            c.on_path("D05.table", p, ar[0] == table, "the row is stored in another table", f)
            hd = ar[1]
            okh = header_value(p, L, hd, row, pre)
            c.on_path("D05.columns", p, okh, "the columns are not those of the header row", f)
            c.on_path("D05.columns", p, row_values(p, q, ar[2], row, hd, a), "the elements of the row are not stored under their own headers", f)
        if not stored: c.on_path("D05.every-row", p, None if any(x[0] == "truthy" and not t and is_t(x[1], "list") for x, t in p.facts.items()) else False, "no row is ever stored", f)
    c.ob("D05.found", True if n >= 2 else None, c.where(f), "rows analysed")


def header_turn(p, L, a, row, pre):
    """'header' when this turn takes the row as headers, 'data' when it is another row; None: no header taken in the loop"""
    lp = p.eng.loops[L]
    takes = [k for k, v in a.next.items() if strip_copy(p.eng.freeze(p.st, v)) == row]
    if takes: return "header"
    if any(strip_copy(p.eng.freeze(p.st, v)) == row for x in lp.alts for v in x.next.values()): return "data" if not counts_wrong(p, L, a, row) else None
    if pre: return "data"
    return None


def counts_wrong(p, L, a, row):
    """the turn is not told apart from the header turn by a counter or flag that the header turn changes"""
    lp = p.eng.loops[L]
    hd = [x for x in lp.alts if any(strip_copy(p.eng.freeze(p.st, v)) == row for v in x.next.values())]
    for h in hd:
        for f_, t in h.facts.items():
            if a.facts.get(f_) == (not t): return False
    q = Path(p.eng, fstate(a.facts), "return", NONE)
    return q.dec(("truthy", row)) is not False


def header_value(p, L, hd, row, pre):
    hd = strip_copy(hd)
    if pre and hd == pre[0].result: return True
    if is_t(hd, "phi") and hd[2] == L:
        lp = p.eng.loops[L]; me = hd; ok = False
        for x in lp.alts:
            v = strip_copy(p.eng.freeze(p.st, x.next.get(hd[3], me)))
            if v == row: ok = True
            elif v != me: return None
        # the header turn comes first: a counter that starts at its initial value, or a flag
        for x in lp.alts:
            if strip_copy(p.eng.freeze(p.st, x.next.get(hd[3], me))) == row:
                ft = first_turn(p, lp, L, x)
                if ft is not True: return ft
        return True if ok else None
    if hd == row: return False
    return None


def first_turn(p, lp, L, alt):
    """the facts of this turn hold initially, and not any more after it"""
    bad = False
    for a, t in alt.facts.items():
        for k, v in lp.phi_init.items():
            me = T("phi", L, k)
            if not contains(a, me): continue
            v0 = p.eng.freeze(p.st, v)
            at0 = Path(p.eng, fstate({}), "return", NONE)
            b = subst(a, {me: v0})
            d = fold(at0, b)
            v1 = p.eng.freeze(p.st, alt.next.get(k, me))
            d1 = fold(at0, subst(subst(a, {me: v1}), {me: v0}))
            if d == t and d1 is not None and d1 != t: return True
            if d == t and d1 is None and v1 != me: return True
            if d is not None and (d != t or d1 == t): bad = True
        if a[0] == "eq" and idx(L) in a and K(0) in a and t: return True
        if a[0] == "truthy" and a[1] == idx(L) and not t: return True
    return False if bad else None


def fold(q, a):
    """truth of a fact over constants"""
    if a[0] == "eq" and is_k(a[1]) and is_k(a[2]): return a[1] == a[2]
    if a[0] == "isnone" and (is_k(a[1])): return a[1] == NONE
    if a[0] == "truthy":
        if is_k(a[1]): return bool(kv(a[1]))
        if a[1] == EMPTY_LIST: return False
        if is_t(a[1], "item"): return True
    if a[0] == "isnone" and is_t(a[1], "list"): return False
    if a[0] in ("eq", "lt"):
        def val(x):
            if is_k(x): return kv(x)
            if is_t(x, "bin") and x[2] in "+-":
                l, r = val(x[3]), val(x[4])
                return None if l is None or r is None else l + r if x[2] == "+" else l - r
            return None
        l, r = val(a[1]), val(a[2])
        if l is None or r is None or isinstance(l, str) != isinstance(r, str): return None
        return l == r if a[0] == "eq" else l < r
    return q.dec(a)


def row_values(p, q, v, row, hd, alt):
    """the values are the elements of the row, in order"""
    b, how = strip_seq(v)
    if b == row: return how == "all"
    its = _exp_items(p, v, alt)
    if its is None: return None
    if not its: return None
    for i in its:
        own = [x for x in i.chain]
        if len(own) != 1: return None
        L = own[0][0]; e = p.eng
        w = covers(p, L, row, alt.loops)
        if w is None and i.kind == "one" and is_t(i.val, "item") and i.val[3] == idx(L) and is_t(i.val[2], "list") and contains(e.loops[L].dom, i.val[2]) and row_values(p, q, i.val[2], row, hd, alt) is False: return False
        if w is None: return None
        if w != "all": return False
        if i.kind == "skip": return False
        x = el(e, row, L)
        if i.val == x and i.kind == "one": continue
        return False if not contains(i.val, x) or i.kind == "spread" and i.val == x or is_call(i.val, "lower", x) or is_call(i.val, "upper", x) or is_call(i.val, "strip", x) else None
    return True


def _exp_items(p, v, alt):
    from .spec import _exp
    if not (is_t(v, "list") or is_t(v, "tupof")): return None
    if is_t(v, "tupof"): v = v[2]
    return _exp(p.eng, v[2:], alt.loops, (), dict(alt.facts))


# ---------------------------------------------------------------- D06
@spec("D06", least=15)
def D06(c):
    for cname, kind in adapters(c).items():
        cl = c.prog.cls(cname)
        for m in ("insert", "delete"):
            f = cl.methods.get(m)
            if f is None or only_raises(f): continue
            if kind == "sql": c.guard("D06." + m, cname, sql_write, c, cname, m, f)
            elif kind == "store": c.guard("D06." + m, cname, store_write, c, cname, m, f)
    memory(c)


def only_raises(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Raise, ast.Pass)) for s in b)


def sql_write(c, cname, m, f):
    table, cols, vals = (param(x) for x in f.params[1:4]); mark = placeholder(c, cname); n = 0
    for p in c.method(cname, m):
        e = query_of(c, "D06", p, f, executes(p))
        if e is None: continue
        ps = pieces(p, e.args[0])
        if m == "delete":
            lit = ps[0][1] if ps[0][0] == "s" else ""
            ok = re.match(r"\s*DELETE\s+FROM\s+[\"`]?$", lit, re.I) and ps[1] == ("v", table)
            c.on_path("D06.table", p, True if ok else None, "what is deleted from is not understood", f)
            w = where_part(p, ps)
            if w is None: c.on_path("D06.matching", p, False, "rows are deleted without a restriction", f); continue
            n += conditions(c, "D06.matching", p, f, w, cols, vals, mark, optional=False)
        else:
            lit = " ".join(x[1] if x[0] == "s" else "\0J" if x[0] == "join" else "\0V" for x in ps)
            g = re.fullmatch(r"\s*INSERT\s+(?:OR\s+(\w+)\s+)?INTO\s+[\"`]?\s*\0V[\"`]?\s+\(\s*\0J\s*\)\s*VALUES\s*\(\s*\0J\s*\)\s*;?\s*", lit, re.I)
            if not g: c.on_path("D06.insert", p, None, f"the insert is not understood", f); continue
            c.on_path("D06.insert", p, (g.group(1) or "").upper() not in ("REPLACE", "ROLLBACK"), "an insert replaces other rows", f)
            vs = [x for x in ps if x[0] == "v"]; js = [x for x in ps if x[0] == "join"]
            c.on_path("D06.table", p, vs[0][1] == table, "the row is stored in another table", f)
            b, how = strip_seq(js[0][2]); ok = how == "all" if b == cols else None
            c.on_path("D06.pairs", p, ok and js[0][1].strip() == ",", "the columns are not the given columns in order", f)
            its = p.seq(js[1][2]); ok = None
            if its and all(len(i.chain) == 1 and column_loop(p, i.chain[0][0], cols, vals) for i in its):
                ok = all(column_loop(p, i.chain[0][0], cols, vals) == "all" and i.kind == "one" for i in its)
                ok = ok and all(is_k(i.val) and str(kv(i.val)).strip() == mark for i in its)
            elif is_t(js[1][2], "repeat") or is_t(js[1][2], "bin"): ok = any(is_t(x, "len") and x[2] in (cols, vals) for x in subterms(js[1][2])) or None
            c.on_path("D06.pairs", p, ok and js[1][1].strip() == ",", "there is not one parameter per value", f); n += 1
        if len(e.args) < 2: c.on_path("D06.pairs", p, False, "the values are not passed", f); continue
        arguments(c, "D06.pairs", p, f, e.args[1], cols, vals, optional=False)
    c.ob("D06.found", True if n else None, c.where(f), f"{cname}.{m}")


def store_write(c, cname, m, f):
    table, cols, vals = (param(x) for x in f.params[1:4]); ST = attr(SELF, "store"); n = 0
    for p in c.method(cname, m):
        if p.raises: c.on_path("D06.raises", p, False if p.v[3] == "explicit" else None, "storing raises an error", f); continue
        if m != "insert": c.on_path("D06.matching", p, None, "deleting from the store is not understood", f); continue
        has = p.dec(("in", table, ST))
        new = [(e.d["key"], e.d["value"]) for e, ch, fa in p.events("put") if e.d.get("target") == ST]
        new += [(e.args[0], e.args[1]) for e, ch, fa in p.events("mutate") if e.d.get("target") == ST and e.d["op"] == "setdefault" and len(e.args) == 2 and has is False]
        first = [v[2][1] for k, v in new if is_t(v, "list") and len(v) == 3 and v[2][0] == "one"]
        for k, v in new:
            c.on_path("D06.kept", p, k == table and has is False, "the records that are already in the table are lost", f)
        apps = [e for e, ch, fa in p.events("mutate") if not ch and e.d["op"] in ("append", "extend", "add", "insert")]
        own = [e for e in apps if e.d["target"] == T("item", ST, table) or new and e.d["target"][0] == "ref" or contains(e.d["target"], ST)]
        if len(own) + len(first) != 1: c.on_path("D06.stored", p, False if not own and not p.imprecise and not new else None, "the record is not stored exactly once", f); continue
        e = own[0] if own else None; n += 1
        if e is None: pass
        elif e.d["op"] == "insert" and e.args[0] == K(0): c.on_path("D06.order", p, False, "records are not kept in the order in which they were inserted", f); continue
        elif e.d["op"] != "append": c.on_path("D06.stored", p, False if e.d["op"] == "extend" and is_t(e.args[-1], "dict") else None, "the record itself is not stored", f); continue
        its = p.seq(e.args[-1] if e else first[0])
        if its is None: c.on_path("D06.pairs", p, None, "the record is not understood", f); continue
        ok = bool(its)
        for i in its:
            if len(i.chain) != 1: ok = None; continue
            L = i.chain[0][0]
            if i.kind == "skip":
                nn = Path(p.eng, fstate(i.facts), "return", NONE).dec(("isnone", el(p.eng, vals, L)))
                if nn is not True: ok = False
                continue
            if i.kind != "put": ok = None; continue
            if i.key != el(p.eng, cols, L) or i.val != el(p.eng, vals, L): ok = False if ok is not None and (i.key == el(p.eng, cols, L) and not contains(i.val, el(p.eng, vals, L)) or i.val == el(p.eng, vals, L) and not contains(i.key, el(p.eng, cols, L))) else None
            elif column_loop(p, L, cols, vals) != "all": ok = False
        c.on_path("D06.pairs", p, ok, "a value is not stored under its own column", f)
    c.ob("D06.found", True if n else None, c.where(f), f"{cname}.{m}")
    g = c.prog.cls(cname).find("clear")
    for p in c.method(cname, "clear") if g else ():
        sets = [e for e, ch, fa in p.events("setattr") if e.d["base"] == SELF and e.d["name"] == "store"]
        calls = [e for e, ch, fa in p.events("mutate") if e.d["op"] == "clear" and e.d["target"] == ST]
        c.on_path("D06.clear", p, (p.eng.freeze(p.st, sets[-1].d["value"]) == T("dict") if sets else bool(calls)) or (False if not p.imprecise else None), "clearing leaves records", g)


def memory(c):
    """modules that offer relations from a data source: table, columns and values unchanged"""
    for cname, mname, call in (("SimpleMemoryModule", "query", "select"), ("SimpleMemoryModule", "write", "insert")):
        f = c.prog.method(cname, mname); vals, ctx = param(f.params[1]), param(f.params[2]); n = 0
        for p in c.method(cname, mname, opaque={"select", "insert", "delete"}):
            cs = [(e, ch) for e, ch, fa in p.calls() if e.d["name"] in ("select", "insert", "delete")]
            if p.raises: continue
            if len(cs) != 1 or cs[0][1]: c.on_path("D06.passed", p, False if not cs and not p.imprecise else None, "the data source is not called exactly once", f); continue
            e = cs[0][0]; n += 1; rel = attr(ctx, "relation")
            ok = e.d["name"] == call and e.d.get("recv") == attr(SELF, "data_source")
            want = [attr(rel, "predicate"), attr(rel, "arguments"), vals]
            same = [strip_copy(x) for x in e.args] == want
            if not same: same = False if any(strip_seq(x)[0] in want and strip_copy(x) != w for x, w in zip(e.args, want)) or len(e.args) == 3 and all(x == w or plain(x, (vals, ctx)) for x, w in zip(e.args, want)) else None
            c.on_path("D06.passed", p, ok and same, "the relation, its columns or the values are not passed as they are", f)
            if call == "select": c.on_path("D06.passed", p, p.v == e.result or (False if strip_seq(p.v)[0] == e.result or is_k(p.v) else None), "the rows are not returned as they are", f)
        c.ob("D06.found", True if n else None, c.where(f), f"{cname}.{mname}")
    # which function serves the relation
    f = c.prog.method("SimpleMemoryModule", "add_relation"); r = param(f.params[1]); n = 0
    for p in c.method("SimpleMemoryModule", "add_relation"):
        if p.raises: continue
        for fld, m in (("query_function", "query"), ("write_function", "write")):
            has = p.dec(("truthy", attr(r, fld))); none = p.dec(("isnone", attr(r, fld)))
            sets = [e for e, ch, fa in p.events("setattr") if e.d["base"] == r and e.d["name"] == fld]
            for e in sets:
                g = e.d["value"]; n += 1
                if g == attr(r, fld): continue
                c.on_path("D06.served", p, is_method(c, p, g, m), "a relation is served by the wrong function", f)
                c.on_path("D06.served", p, has is False or none is True, "the function that a relation came with is replaced", f)
            if not sets and has is not True and none is not False: c.on_path("D06.served", p, False if not p.imprecise else None, "a relation without a function is not served", f)
    c.ob("D06.found", True if n else None, c.where(f), "functions of relations")


def plain(v, roots):
    """a constant, or a part of one of the roots taken without any computation"""
    if is_k(v) or v in roots: return True
    if is_t(v, "attr") or is_t(v, "item") or is_t(v, "slice") or is_t(v, "reversed"): return plain(v[2], roots)
    if is_t(v, "list"): return all(g[0] in ("one", "spread") and plain(g[1], roots) for g in v[2:])
    return False


def is_method(c, p, g, m):
    g = p.eng.freeze(p.st, g)
    if is_t(g, "attr"): return g[3] == m
    fn = fn_func(c, g, p.eng) if isinstance(g, tuple) else None
    return None if fn is None else fn.name == m


# ---------------------------------------------------------------- D07
@spec("D07", least=8)
def D07(c):
    C = "BasicDialogContext"; OPQ = {"insert", "delete", "select"}
    e0, s0, mod, tab = relation_table(c, C, c.machine(OPQ))
    for pred, how in (("with_context", "with"), ("start_context", "start"), ("end_context", "end")):
        e, f, ps = run_handler(c, C, pred, table=(e0, s0, mod, tab), opaque=OPQ)
        if f is None: c.ob("D07.found", None, C, f"{pred} has no function"); continue
        vals, ctx = param("values"), param("context"); name = T("item", vals, K(0)); n = 0
        if how == "with" and not any(p.raises for p in ps):
            c.ob("D07.end", False, c.where(f), "the context still holds when solving the body fails: nothing handles the failure")
        for p in ps:
            ev = [(e_, ch) for e_, ch, fa in p.events("call") if e_.d["name"] in ("insert", "delete", "solve", "execute", "select", "solve_rest")]
            if any(ch for e_, ch in ev):
                apart = any(ch and e_.d["name"].startswith("solve") and e_.args and covers(p, ch[-1][0], T("item", vals, K(1))) and e_.args[1:2] == (attr(ctx, "binding"),) and not e_.d.get("kwargs") for e_, ch in ev)
                c.on_path("D07.once", p, False if apart else None, "the atoms of the body are solved apart, without the values found by the ones before" if apart else "contexts are changed in a loop", f); continue
            ev = [e_ for e_, ch in ev]; n += 1
            ins = [i for i, e_ in enumerate(ev) if e_.d["name"] == "insert"]; dele = [i for i, e_ in enumerate(ev) if e_.d["name"] == "delete"]; sol = [i for i, e_ in enumerate(ev) if e_.d["name"].startswith("solve")]
            for i in ins + dele:
                a = [strip_copy(x) for x in ev[i].args]
                ok = a == [K("context"), T("list", ("one", K("name"))), T("list", ("one", name))]
                if not ok: ok = False if len(a) == 3 and all(is_k(x) or is_t(x, "list") for x in a) and (a[0] != K("context") or not contains(a[2], name)) else None
                c.on_path("D07.named", p, ok, "another context than the named one is changed", f)
            if p.returns: c.on_path("D07.holds", p, one_row(p, 2 if how == "with" else 1), "the predicate does not succeed exactly once, without binding its arguments", f)
            failed_at = p.v[3] if p.raises and isinstance(p.v[3], str) else ""
            if how == "start":
                c.on_path("D07.start", p, len(ins) == 1 and not dele if p.returns else True, "starting a context does not make it present", f)
            elif how == "end":
                c.on_path("D07.end", p, len(dele) == 1 and not ins if p.returns else True, "ending a context does not make it absent", f)
            else:
                if p.raises and (failed_at in ("call:insert", "call:delete")): continue
                if not sol: c.on_path("D07.body", p, False if p.returns and not p.imprecise else None, "the body is not solved", f); continue
                c.on_path("D07.body", p, len(sol) == 1 and ev[sol[0]].args[:1] == (T("item", vals, K(1)),), "the body is not solved exactly once", f)
                c.on_path("D07.start", p, bool(ins) and ins[0] < sol[0] and not any(d < sol[0] for d in dele), "the context does not hold while the body is solved", f)
                c.on_path("D07.end", p, bool(dele) and dele[-1] > sol[-1] and not any(i > dele[-1] for i in ins), "the context still holds after the body" + (" when solving it fails" if p.raises else ""), f)
                if len(ev[sol[0]].args) > 1: c.on_path("D07.body", p, contains(ev[sol[0]].args[1], attr(ctx, "binding")) or False, "the body is not solved with the current binding", f)
        c.ob("D07.found", True if n else None, c.where(f), f"{pred} analysed")


def one_row(p, n):
    v = p.v
    if not is_t(v, "list"): return False if is_k(v) else None
    if not all(g[0] == "one" for g in v[2:]): return None
    if len(v) != 3: return False
    r = v[2][1]
    xs = list(r[1:]) if r[0] == "tup" else [g[1] for g in r[2:]] if is_t(r, "list") and all(g[0] == "one" for g in r[2:]) else None
    if xs is None: return None
    return is_t(r, "list") and len(xs) == n and all(x == NONE or x == T("item", param("values"), K(i)) for i, x in enumerate(xs))
