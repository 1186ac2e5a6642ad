"""I04, G05: the two text parsers (inference rules, grammar rules): no text is skipped, nothing that was read is dropped."""
import re, string
from .spec import *

RP, GP = "SimpleInferenceRuleParser", "SimpleGrammarRulesParser"


# ---------------------------------------------------------------- constants of the class
def fold(t):
    """python value of a constant term; regular expressions become ('re', pattern)"""
    if is_k(t): return kv(t)
    if is_t(t, "fstr"): return "".join(fold(x) for x in t[2:])
    if is_t(t, "join"): return fold(t[2]).join(fold(t[3]))
    if is_t(t, "list"):
        out = []
        for s in t[2:]:
            if s[0] == "one": out.append(fold(s[1]))
            elif s[0] == "spread": out += list(fold(s[1]))
            else: raise ValueError(s)
        return out
    if t[0] == "tup": return [fold(x) for x in t[1:]]
    if is_t(t, "bin") and t[2] == "+": return fold(t[3]) + fold(t[4])
    if is_t(t, "call") and t[2] == "re.compile" and len(t[4]) == 1 and not t[5]: return ("re", fold(t[4][0]))
    raise ValueError(show(t))


def class_constants(c, cname):
    """{field: value} of the constant fields of an instance"""
    e = c.machine(); cl = c.prog.cls(cname); out = {}
    init = cl.find("__init__")
    if init:
        for s, v in e.construct(State(), cl.qual, [e.param(p, None) for p in init.params[1:]], {}, None):
            if is_exc(v): continue
            for (o, f), x in s.fields.items():
                if o != v: continue
                try: out[f] = fold(e.freeze(s, x))
                except (ValueError, TypeError): pass
    c.functions |= e.functions
    return out


def reads_maybe(v, m):
    """`return False, pos`: a helper that cannot fail and leaves the position where it was (it is looked into where it is called)"""
    return isinstance(v, ast.Tuple) and len(v.elts) == 2 and isinstance(v.elts[0], ast.Constant) and v.elts[0].value in (True, False) and isinstance(v.elts[1], ast.Name) and v.elts[1].id == m.params[2] \
        and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == m.params[2] for x in ast.walk(m.node))


def parser_methods(c, cname, exact=True):
    """the methods that read tokens at a position and return (value, new position): parameters (self, tokens, position)"""
    out = {}
    for n, m in c.prog.cls(cname).methods.items():
        if len(m.params) == 3:
            rets = [r for r in ast.walk(m.node) if isinstance(r, ast.Return)]
            if any(reads_maybe(r.value, m) for r in rets): continue
            if rets and all(isinstance(r.value, (ast.Tuple, ast.Call)) for r in rets) and any(isinstance(r.value, ast.Tuple) and len(r.value.elts) == 2 for r in rets): out[n] = m
    return out


# ---------------------------------------------------------------- accounting
def nc(v):
    """calls without their occurrence counter"""
    if not isinstance(v, tuple): return v
    if len(v) == 7 and v[:2] == ("t", "call"): return ("t", "call", v[2], nc(v[3]), nc(v[4]), nc(v[5]), 0)
    return tuple(nc(x) if isinstance(x, tuple) else x for x in v)


class Acct:
    """pieces of text consumed on a path: walk the final position back to the start"""
    def __init__(self, c, p, parsers, tokens, value, flags):
        self.c = c; self.p = p; self.parsers = parsers; self.tokens = tokens; self.flags = flags
        self.value = set(subterms(value)) if value is not None else set()
        if value is not None:
            for it in p.seq(value) or []:
                self._add(it.val); self._add(it.key)
        for x in list(self.value):
            if is_t(x, "list") or is_t(x, "mut"):
                for it in p.seq(x) or []: self._add(it.val)
        self.pieces = []; self.problems = []; self.unknown = []; self.consumed = set()

    def _add(self, v):
        if v is not None: self.value |= set(subterms(v))

    def walk(self, pos, start, facts, seen=()):
        while True:
            if pos in start: return
            if is_t(pos, "item") and pos[3] == K(1) and is_t(pos[2], "call") and pos[2][2] in self.parsers:
                call = pos[2]; self.piece(call, T("item", call, K(0)), facts, self.flags.get(call[2]))
                pos = call[4][1]; continue
            if is_t(pos, "bin") and pos[2] == "+" and is_k(pos[4]) and isinstance(kv(pos[4]), int) and 0 < kv(pos[4]) < 9:
                n = kv(pos[4]) - 1; prev = T("bin", "+", pos[3], K(n)) if n else pos[3]
                self.piece(None, T("item", self.tokens, prev), facts, None); pos = prev; continue
            if is_t(pos, "phi"):
                L = pos[2]; key = pos[3]
                if (L, key) in seen: return
                lp = self.p.eng.loops[L]; seen = seen + ((L, key),)
                mode, al = self.p.st.loops.get(L, ("all", None))
                for i, a in enumerate(lp.alts):
                    if al is not None and i not in al: continue
                    nx = next((v for k, v in a.next.items() if k == key), None)
                    if nx is None or nx == pos: continue
                    sub = Acct.__new__(Acct); sub.__dict__.update(self.__dict__)
                    sub.value = set(self.value)
                    for em in a.emits.values():
                        for g in em:
                            for x in g[1:]:
                                if isinstance(x, tuple): sub._add(x)
                    sub.walk(nx, (pos,), {**facts, **a.facts}, seen)
                pos = lp.phi_init.get(key)
                if pos is None: self.unknown.append("loop"); return
                continue
            self.unknown.append(show(pos)[:120]); return

    def piece(self, call, v, facts, flag):
        eng = self.p.eng; st = fstate(facts)
        self.consumed.add(v); self.pieces.append(v)
        none = eng.decide(st, ("isnone", v)); tr = eng.decide(st, ("truthy", v))
        lit = any(a[0] == "eq" and t and v in a[1:] and any(is_k(x) for x in a[1:]) for a, t in facts.items()) or \
              any(a[0] == "in" and t and a[1] == v for a, t in facts.items())
        if v in self.value:
            if none is True or tr is False and call is not None: self.problems.append(("failed", v))
            elif call is not None and tr is None and none is None and not (self.passes(v, call)): self.problems.append(("failed", v))
            return
        if none is True or lit: return
        if flag and tr is True: return
        if call is None:
            first = T("item", v, K(0))
            com = any(a[0] == "eq" and t and first in a[1:] and K("#") in a[1:] for a, t in facts.items()) or \
                  any(a[0] == "truthy" and t and is_t(a[1], "call") and a[1][2] == "startswith" and a[1][3] == v and a[1][4] == (K("#"),) for a, t in facts.items())
            if com: return
        if tr is False: self.problems.append(("failed", v)); return
        self.problems.append(("dropped", v))

    def passes(self, v, call):
        """the result of the part is handed on as it is"""
        w, q = pass_through(self.p.v, self.parsers)
        return w == v and q == T("item", call, K(1))

    def double(self):
        """values in the result that were read but not consumed"""
        done = {nc(x) for x in self.consumed}
        return [x for x in self.value if is_t(x, "item") and x[3] == K(0) and is_t(x[2], "call") and x[2][2] in self.parsers and nc(x) not in done
                and self.p.dec(("truthy", x)) is not False]


def failure(v): return v in (NONE, FALSE)


def flag_methods(c, cname, parsers):
    """methods whose success value is just True"""
    out = {}
    for n, m in parsers.items():
        vs = []
        for p in c.method(cname, n, opaque=set(parsers) - set()):
            if p.returns and p.v[0] == "tup" and len(p.v) == 3 and not failure(p.v[1]): vs.append(p.v[1])
            elif p.returns and p.v[0] != "tup": vs.append(None)
        out[n] = bool(vs) and all(v == TRUE for v in vs)
    return out


def account_methods(c, cname, pid, parsers, flags):
    """every token-reading method: what was consumed is in the value or was compared with a literal"""
    for n, m in parsers.items():
        tokens, pos = param(m.params[1]), param(m.params[2])
        def one(n=n, m=m):
            for p in c.method(cname, n, opaque=set(parsers)):
                if not p.returns: continue
                v, q = pass_through(p.v, parsers)
                if v is None: c.on_path(f"{pid}.account", p, None, "result is not a value with a position", m); continue
                if failure(v): continue
                a = Acct(c, p, parsers, tokens, p.v if v is p.v else v, flags)
                a.walk(q, (pos,), p.facts)
                report_acct(c, pid, p, a, m)
                x = altered(v, tokens, parsers)
                if x is not None: c.on_path(f"{pid}.account", p, False, f"the text that was read is changed: {show(x)[:150]}", m)
                x = one_of_many(c, p, cname, v, parsers)
                if x is not None: c.on_path(f"{pid}.account", p, False, f"only one of the parts that were read is used: {show(x)[:150]}", m)
    # run per method so that one that is not understood does not hide the others
        c.guard(f"{pid}.account", c.where(m), one)


CASE = ("lower", "upper", "title", "capitalize", "casefold", "swapcase"); TRIM = ("strip", "lstrip", "rstrip"); NUMERIC = ("round", "abs", "int", "float", "math.floor", "math.ceil")


def altered(v, tokens, parsers):
    """a part of the value in which text that was read has other letters, other blanks or another number"""
    def text(x): return x is not None and isinstance(x, tuple) and (contains(x, tokens) or any(is_t(y, "call") and y[2] in parsers for y in subterms(x)))
    def quoted(x): return any(is_t(y, "slice") and y[3] == K(1) and y[4] == K(-1) for y in subterms(x))
    def number(x): return is_t(x, "call") and x[2] in ("float", "int") or is_t(x, "float") or is_t(x, "int")
    for x in subterms(v):
        if is_t(x, "call"):
            if x[2] in CASE and text(x[3]): return x
            if x[2] in TRIM and text(x[3]) and quoted(x[3]): return x
            if x[2] in ("round", "abs", "int", "math.floor", "math.ceil", "math.trunc") and x[4] and number(x[4][0]) and text(x[4][0]): return x
        elif x[0] == "t" and len(x) > 2 and x[1] in ("round", "abs", "int") and isinstance(x[2], tuple) and number(x[2]) and text(x[2]): return x
        elif is_t(x, "bin") and (number(x[3]) or number(x[4])) and text(x): return x
    return None


def reads_list(c, cname, n, parsers, seen=()):
    """this method reads a sequence of parts: every value it gives is a list"""
    if n in seen: return True
    kinds = set()
    for p in c.method(cname, n, opaque=set(parsers)):
        if not p.returns: continue
        v, _ = pass_through(p.v, parsers)
        if v is None: return False
        if failure(v): continue
        if is_t(v, "list"): kinds.add(True)
        elif is_t(v, "item") and v[3] == K(0) and is_t(v[2], "call") and v[2][2] in parsers: kinds.add(reads_list(c, cname, v[2][2], parsers, seen + (n,)))
        else: kinds.add(False)
    return kinds == {True}


def one_of_many(c, p, cname, v, parsers):
    """a single element of a sequence of parts, where nothing says the sequence has just one"""
    for x in subterms(v):
        if not (is_t(x, "item") and is_k(x[3]) and isinstance(kv(x[3]), int)): continue
        y = x[2]; whole = None
        if is_t(y, "item") and y[3] == K(0) and is_t(y[2], "call") and y[2][2] in parsers: whole = y[2][2]
        elif is_t(y, "item") and is_t(y[2], "list"):
            its = p.seq(y[2]) or []
            names = {i.val[2][2] if is_t(i.val, "item") and i.val[3] == K(0) and is_t(i.val[2], "call") and i.val[2][2] in parsers else None for i in its}
            if len(names) == 1: whole = names.pop()
        if whole is None or any(contains(a, T("len", y)) for a in p.facts): continue
        if any(is_t(z, "item") and z[2] == y and z[3] != x[3] for z in subterms(v)): continue
        if reads_list(c, cname, whole, parsers): return x
    return None


def pass_through(v, parsers):
    if v[0] == "tup" and len(v) == 3: return v[1], v[2]
    if is_t(v, "call") and v[2] in parsers: return T("item", v, K(0)), T("item", v, K(1))
    return None, None


def report_acct(c, pid, p, a, m):
    if a.unknown: c.on_path(f"{pid}.account", p, None, f"position not understood: {a.unknown[0]}", m); return
    dropped = [v for k, v in a.problems if k == "dropped"]; failed = [v for k, v in a.problems if k == "failed"]
    dbl = a.double()
    c.on_path(f"{pid}.account", p, not dropped, f"text is read and then dropped: {show(dropped[0])[:150]}" if dropped else "all text that was read is used", m)
    if failed: c.on_path(f"{pid}.position", p, False, f"the position of a failed attempt is used: {show(failed[0])[:150]}", m)
    c.on_path(f"{pid}.twice", p, not dbl, f"text is used without moving past it: {show(dbl[0])[:150]}" if dbl else "text is used once", m)


def token_reader(c, cname, pid, parsers, comments):
    """the method that takes a token: gives the token at the position, says 'none' only at the end"""
    n_ok = 0
    for n, m in parsers.items():
        tokens, pos = param(m.params[1]), param(m.params[2])
        if not any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == m.params[1] for x in ast.walk(m.node)): continue
        for p in c.method(cname, n, opaque=set(parsers)):
            if p.raises:
                if p.v[3] == "IndexError": c.on_path(f"{pid}.end", p, None, "", m)
                continue
            v, q = pass_through(p.v, parsers)
            if v is None: c.on_path(f"{pid}.token", p, None, "", m); continue
            n_ok += 1
            if failure(v):
                at = pos
                for L in p.st.loops:
                    for k in p.eng.loops[L].phi_init:
                        if p.eng.loops[L].phi_init[k] == pos: at = T("phi", L, k)
                end = p.cmp("ge", at, T("len", tokens))
                if end is None: end = {True: False, False: True}.get(p.cmp("lt", at, T("len", tokens)))
                if end is None and at != pos: end = p.cmp("ge", pos, T("len", tokens))
                c.on_path(f"{pid}.end", p, end if end is not None else None if p.imprecise else False, "a token that is there is reported as missing", m)
            elif is_t(v, "item") and v[2] == tokens:
                c.on_path(f"{pid}.token", p, q == T("bin", "+", v[3], K(1)), "the position after a token is not the next one", m)
                if comments:
                    nocom = any(K("#") in a[1:] and a[0] == "eq" and not t and T("item", v, K(0)) in a[1:] or a[0] == "truthy" and not t and is_t(a[1], "call") and a[1][2] == "startswith" and a[1][4] == (K("#"),) for a, t in p.facts.items())
                    c.on_path(f"{pid}.comment", p, True if nocom else None if any(contains(a, K("#")) for a in p.facts) and not any(contains(a, K("#")) and t and a[0] in ("eq", "truthy") for a, t in p.facts.items()) else False, "a comment is given out as a token of a rule", m)
    c.ob(f"{pid}.reader", True if n_ok else None, c.where((cname, "__init__")), "tokens are taken one by one")


# ---------------------------------------------------------------- token patterns
def token_pattern(c, term, consts):
    """the constant pattern that splits the text: from re.findall(pattern, text) / pattern.findall(text)"""
    for x in subterms(term):
        if is_t(x, "call") and x[2] in ("re.findall", "findall"):
            src = x[4][0] if x[2] == "re.findall" else x[3]
            if src is None: continue
            if is_t(src, "attr") and src[3] in consts: v = consts[src[3]]
            else:
                try: v = fold(src)
                except (ValueError, TypeError): continue
            return v[1] if isinstance(v, tuple) else v
    return None


def whole(rx, text, tail=""):
    m = rx.match(text + tail)
    return bool(m) and m.end() == len(text)


CHARS = [chr(i) for i in range(33, 127)] + ["é", "Ж", "中", "€", "\x07", "“"]


def tokens_ok(c, pid, where, pattern, vocabulary, kinds, comments):
    if pattern is None: c.ob(f"{pid}.tokens", None, where, "how the text is split into tokens is not understood"); return
    try: rx = re.compile(pattern)
    except re.error as x: c.ob(f"{pid}.tokens", False, where, f"the token pattern is not valid: {x}"); return
    for ch in CHARS:
        ok = whole(rx, ch)
        known = ch in vocabulary
        if known:
            t = vocabulary[ch]
            c.ob(f"{pid}.tokens.syntax", whole(rx, t), where, f"the text {t!r} is in no token: it is skipped")
            if not ok and len(t) > 1: c.ob(f"{pid}.tokens.other", False, where, f"the character {ch!r} by itself can be in no token: it is skipped")
        else: c.ob(f"{pid}.tokens.other", ok, where, f"the character {ch!r} can be in no token: it is skipped" if not ok else f"{ch!r} is not skipped")
    for k, ws in kinds.items():
        for w in ws:
            for tail in ("", ")", ", "):
                c.ob(f"{pid}.tokens.{k}", whole(rx, w, tail), where, f"{w!r} is not read as one {k} token")
    c.ob(f"{pid}.tokens.line", not any(whole(rx, x) for x in ("a b", "a\nb", "# a\nb(c).")), where, "a token spans what should be separate tokens or lines")
    if comments:
        for w in ("# text", "#", "#father(X) :- 'x', \"y\"."):
            for tail in ("", "\nfather(X)."):
                c.ob(f"{pid}.tokens.comment", whole(rx, w, tail), where, "a comment is not one token up to the end of its line: it becomes part of a rule")


def end_position(p, tokens):
    """positions that are known to be the end of the text"""
    n = T("len", tokens); out = []
    for a, t in p.facts.items():
        if a[0] == "eq" and t and n in a[1:]: out += [x for x in a[1:] if x != n]
        if a[0] == "lt" and not t and a[2] == n: out.append(a[1])
        if a[0] == "lt" and t and a[1] == T("bin", "+", n, K(-1)): out.append(a[2])
    return out


def tokens_of(p, parsers):
    for e, ch, fa in p.calls():
        if e.d.get("name") in parsers and e.args: return e.args[0]
    return None


# ---------------------------------------------------------------- I04
@spec("I04", least=100)
def I04(c):
    parsers = parser_methods(c, RP); consts = class_constants(c, RP)
    f = c.prog.method(RP, "parse"); w = c.where(f)
    flags = flag_methods(c, RP, parsers)
    account_methods(c, RP, "I04", parsers, flags)
    token_reader(c, RP, "I04", parsers, True)
    n = 0; pat = "?"
    for p in c.method(RP, "parse", opaque=set(parsers)):
        if p.raises: continue
        tokens = tokens_of(p, parsers)
        if tokens is None: c.on_path("I04.complete", p, None, "how rules are read is not understood", f); continue
        if pat == "?": pat = token_pattern(c, tokens, consts)
        if p.v[0] != "tup" or len(p.v) != 3: c.on_path("I04.complete", p, None, "result of parse not understood", f); continue
        v, err = p.v[1], p.v[2]
        if failure(v):
            c.on_path("I04.failure", p, None if is_k(err) is False and p.dec(("isnone", err)) is not False and not is_t(err, "item") and not is_t(err, "phi") else err != NONE, "a failure is reported as success", f); continue
        n += 1
        c.on_path("I04.success", p, err == NONE if is_k(err) else None, "success is reported as failure", f)
        ends = end_position(p, tokens)
        if not ends: c.on_path("I04.complete", p, False, "rule text is accepted although not all of it was read", f); continue
        best = None
        for q in ends:
            a = Acct(c, p, parsers, tokens, v, flags); a.walk(q, (K(0),), p.facts)
            if best is None or len(a.unknown) < len(best.unknown): best = a
        report_acct(c, "I04", p, best, f)
        c.on_path("I04.complete", p, True, "the end of the text was reached", f)
    c.ob("I04.found", True if n else None, w, "parse accepts text")
    from .specs_rules import importing
    c.guard("I04.import", "import_rules", importing, c, "I04")
    syntax = {x: x for x in ".,;()"}; syntax[":"] = ":-"; syntax["-"] = ":-"; syntax["#"] = "# x"; syntax["'"] = "'x'"; syntax['"'] = '"x"'
    tokens_ok(c, "I04", w, None if pat == "?" else pat, syntax, dict(
        string=["''", "'a b'", "'it\\'s'", "'# a'", '""', '"a, b"', "'a. b'"], number=["0", "12", "1.5", "0.0"], variable=["X", "E1", "Person"], name=["father", "five_horses", "x2"]), True)
    terms_ok(c, parsers, consts)
    bodies_ok(c, parsers)


def bodies_ok(c, parsers):
    """the head and the body of a rule are what was read, not the failure to read it"""
    fails = set()
    for n, m in parsers.items():
        for p in c.method(RP, n, opaque=set(parsers)):
            if p.returns and p.v[0] == "tup" and len(p.v) == 3 and p.v[1] == NONE: fails.add(n)
    for n, m in parsers.items():
        for p in c.method(RP, n, opaque=set(parsers)):
            if not p.returns or p.v[0] != "tup" or len(p.v) != 3: continue
            for part in ("head", "body"):
                v = new_field(p.v[1], part)
                if v is None: continue
                if v == NONE: c.on_path("I04.read", p, False, f"a rule without a {part} is made", m); continue
                if not (is_t(v, "item") and v[3] == K(0) and is_t(v[2], "call") and v[2][2] in fails): continue
                t, n_ = p.dec(("truthy", v)), p.dec(("isnone", v))
                c.on_path("I04.read", p, True if t is True or n_ is False else False if t is False or n_ is True or not p.imprecise and not any(contains(a, v[2]) for a in p.facts) else None, f"a rule is made although its {part} could not be read", m)


def terms_ok(c, parsers, consts):
    """every kind of term is accepted: numbers, strings (also empty), variables, atoms; and callers do not take 0 or '' for a failure"""
    falsy = set()
    for n, m in parsers.items():
        for p in c.method(RP, n, opaque=set(parsers)):
            if not p.returns: continue
            v, q = pass_through(p.v, parsers)
            if v is None: continue
            k = term_kind(v)
            if k in ("int", "float", "string"): falsy.add(n)
    if not falsy: c.ob("I04.terms", None, c.where((RP, "parse")), "no method reads numbers or strings"); return
    for n in falsy:
        m = parsers[n]; kinds = {}
        for p in c.method(RP, n, opaque=set(parsers)):
            if not p.returns: continue
            v, q = pass_through(p.v, parsers)
            if v is None or failure(v): continue
            kinds.setdefault(term_kind(v), []).append(p)
            sl = next((x for x in subterms(v) if is_t(x, "slice")), None)
            if term_kind(v) == "string" and sl is not None: c.on_path("I04.terms.content", p, sl[3] == K(1) and sl[4] == K(-1) and sl[5] in (NONE, K(1)), "characters of a string are dropped", m)
            # conversions only under a test that fits
            k = term_kind(v)
            tests = [(kv_pattern(a[1], consts), t) for a, t in p.facts.items() if a[0] == "truthy" and is_t(a[1], "call") and a[1][2] in ("re.match", "match", "re.fullmatch", "fullmatch")]
            full = any(is_t(a[1], "call") and "fullmatch" in a[1][2] for a in p.facts if a[0] == "truthy")
            want = {"int": ["0", "7", "12"], "float": ["0.0", "1.5", "10.25"], "variable": ["X", "E1", "Person"]}.get(k)
            if want and tests and all(x for x, _ in tests):
                ok = all(all(bool((re.fullmatch if full else re.match)(x, w)) == t for x, t in tests) for w in want)
                c.on_path("I04.terms." + k, p, ok, f"not every {k} is accepted as a term", m)
            if k == "int" and tests and all(x for x, _ in tests):
                c.on_path("I04.terms.int", p, not all(bool((re.fullmatch if full else re.match)(x, "1.5")) == t for x, t in tests), "a number with decimals is read as a whole number", m)
        for k in ("int", "float", "string", "variable", "atoms"):
            c.ob("I04.terms", True if kinds.get(k) else (False if None not in kinds else None), c.where(m), f"terms of kind {k} are {'' if kinds.get(k) else 'not '}accepted")
    for n, m in list(parsers.items()):
        for p in c.method(RP, n, opaque=set(parsers)):
            sets = [p.facts] + [a.facts for L in p.st.loops for a in list(p.eng.loops[L].alts) + list(p.eng.loops[L].exits)]
            bad = [a for fs in sets for a in fs if a[0] == "truthy" and is_t(a[1], "item") and a[1][3] == K(0) and is_t(a[1][2], "call") and a[1][2][2] in falsy]
            used = any(e.d.get("name") in falsy for e, ch, fa in p.calls())
            if used: c.on_path("I04.zero", p, not bad, "the number 0 or an empty string is taken for a missing term", m)


def kv_pattern(call, consts):
    src = call[4][0] if call[2].startswith("re.") else call[3]
    if src is None: return None
    if is_t(src, "attr") and src[3] in consts: v = consts[src[3]]
    else:
        try: v = fold(src)
        except (ValueError, TypeError): return None
    return v[1] if isinstance(v, tuple) else v if isinstance(v, str) else None


def term_kind(v):
    if is_t(v, "call") and v[2] in ("float", "int"): return v[2]
    if is_t(v, "float") or is_t(v, "int"): return v[1]
    if is_t(v, "new") and v[2].split(".")[-1] == "Variable": return "variable"
    if is_t(v, "call") and v[2] == "replace" and v[3] is not None: return term_kind(v[3])
    if is_t(v, "slice"): return "string"
    if is_t(v, "item") and is_t(v[2], "call"): return "atoms"
    return None


# ---------------------------------------------------------------- G05
@spec("G05", least=100)
def G05(c):
    parsers = parser_methods(c, GP); parsers.pop("parse_syntax", None)
    parsers = {n: m for n, m in parsers.items() if m.params[1] not in ("syntax", "simple_rule", "simple_grammar")}
    consts = class_constants(c, GP); flags = flag_methods(c, GP, parsers)
    account_methods(c, GP, "G05", parsers, flags)
    token_reader(c, GP, "G05", parsers, False)
    f = c.prog.method(GP, "parse_syntax"); w = c.where(f)
    SYN = param(f.params[1])
    n = 0; pat = "?"; raises = 0
    for p in c.method(GP, "parse_syntax", opaque=set(parsers)):
        if p.raises:
            if p.v[3] != "explicit": c.on_path("G05.error", p, None, "", f); continue
            raises += 1
            c.on_path("G05.error-text", p, any(contains(x, SYN) for x in p.v[2:3] if isinstance(x, tuple)), "the error for a bad syntax string does not show it", f); continue
        tokens = tokens_of(p, parsers)
        if tokens is None: c.on_path("G05.complete", p, None, "how the syntax is read is not understood", f); continue
        if pat == "?": pat = token_pattern(c, tokens, consts)
        n += 1
        ends = end_position(p, tokens)
        if not ends: c.on_path("G05.complete", p, False, "a rule is accepted although not all of its syntax was read", f); continue
        best = None
        for q in ends:
            a = Acct(c, p, parsers, tokens, p.v, flags); a.walk(q, (K(0),), p.facts)
            if best is None or len(a.unknown) < len(best.unknown): best = a
        report_acct(c, "G05", p, best, f)
        # antecedent and arrow
        ant = p.v[1] if p.v[0] == "tup" and len(p.v) == 3 else None
        if ant is None: c.on_path("G05.antecedent", p, None, "", f); continue
        ok = p.dec(("truthy", ant)) is True or p.dec(("isnone", ant)) is False or is_t(ant, "new")
        c.on_path("G05.antecedent", p, ok, "a rule without an antecedent is accepted", f)
        c.on_path("G05.arrow", p, any(a[0] == "eq" and t and K("->") in a[1:] for a, t in p.facts.items()), "a rule without an arrow is accepted", f)
        for L in p.st.loops: kinds_ok(c, p, L, f, parsers, flags)
    c.ob("G05.found", True if n else None, w, "parse_syntax accepts text")
    c.ob("G05.error", True if raises else None, w, "parse_syntax raises errors")
    syntax = {x: x for x in "?,()+~"}; syntax["-"] = "->"; syntax[">"] = "->"; syntax["'"] = "'x'"; syntax['"'] = '"x"'; syntax["/"] = "/x/"
    tokens_ok(c, "G05", w, None if pat == "?" else pat, {**syntax, **{x: x for x in string.ascii_letters + string.digits + "_"}}, dict(
        string=["'a b'", "'it\\'s'", "'+'", '"a, b"', "' '"], regexp=["/[a-z]+/", "/a\\/b/", "/'/", "/\\w+ \\d/"], variable=["X", "E1", "Person"], name=["np", "noun_phrase", "x2", "np1"]), False)
    grammar_rules_kept(c)
    rule_fields(c)


def kinds_ok(c, p, L, f, parsers, flags):
    """constituents: kind of token -> kind of constituent; the optional marker is kept; separators"""
    lp = p.eng.loops[L]; mode, al = p.st.loops[L]
    for i, a in enumerate(lp.alts):
        if al is not None and i not in al: continue
        opt = [x[1] for x, t in a.facts.items() if x[0] == "truthy" and t and is_t(x[1], "item") and is_t(x[1][2], "call") and flags.get(x[1][2][2])]
        consumed = set()
        news = [g[1] for em in a.emits.values() for g in em if g[0] == "one"]
        kinds = {}
        for v in news:
            if is_t(v, "item") and is_t(v[2], "call"): kinds[v] = "given"; continue
            pr, ty = new_field(v, "predicate"), new_field(v, "position_type")
            if pr is None or ty is None: continue
            src = next((x[2][2] for x in subterms(pr) if is_t(x, "item") and is_t(x[2], "call") and x[2][2] in parsers), None)
            kinds[v] = src
            if src:
                want = "reg-exp" if "regexp" in src else "word-form" if "string" in src else None
                if want: c.on_path("G05.kinds", p, True if is_k(ty) and kv(ty) == want else False if is_k(ty) else None, f"text read by {src} becomes a constituent of the wrong kind", f)
        yes = lambda x: x == TRUE or x is not None and p.eng.decide(fstate(a.facts), ("truthy", x)) is True
        if opt:
            marked = any(yes(new_field(v, "optional")) for v in news if kinds.get(v)) or set_optional(a.trace)
            c.on_path("G05.optional", p, True if marked else False, "the optional marker '?' is read and ignored", f)
        else:
            marked = any(yes(new_field(v, "optional")) for v in news if kinds.get(v)) or set_optional(a.trace)
            if marked: c.on_path("G05.optional", p, False, "a part without '?' becomes optional", f)
        sep = [v for v in news if new_field(v, "separator") == TRUE or new_field(v, "predicate") == K(" ")]
        lits = {kv(y) for x, t in a.facts.items() if x[0] == "eq" and t for y in x[1:] if is_k(y)}
        if "+" in lits: c.on_path("G05.plus", p, not sep, "parts joined by '+' are separated", f)
        elif "~" in lits: c.on_path("G05.tilde", p, len(sep) == 1 and new_field(sep[0], "optional") == TRUE if sep else False, "'~' is not an optional space", f)
        elif sep: c.on_path("G05.space", p, len(sep) == 1 and new_field(sep[0], "optional") == FALSE, "the space between two parts is optional", f)
        elif news:
            # without a space only where this was the last part: some test says that no tokens are left
            from .specs_pipeline import lin
            ends = [(x, t) for x, t in a.facts.items() if x[0] in ("lt", "eq") and any(is_t(y, "len") for z in x[1:] for y in subterms(z))]
            for x, t in ends:
                if x[0] != "lt" or t: continue
                u, w = lin(x[1]), lin(x[2])
                if u and w and is_t(w[0], "len") and w[1] - u[1] < 0 and u[0] in a.next.values(): c.on_path("G05.space", p, False, "there is no space between the last part and the one before it", f)


def set_optional(trace):
    return any(e.kind == "setattr" and e.d.get("name") == "optional" and e.d.get("value") == TRUE and getattr(e.d.get("func"), "name", "") != "__init__" for e in trace)


def grammar_rules_kept(c):
    f = c.prog.method(GP, "parse_grammar"); n = 0
    G = param(f.params[1])
    for p in c.method(GP, "parse_grammar", opaque={"parse_simple_rule", "GrammarRules", "add_rule"}):
        if p.raises: continue
        calls = p.calls("parse_simple_rule")
        if not calls: c.on_path("G05.rules", p, False if not p.imprecise else None, "the rules of a grammar are not read", f); continue
        for e, ch, fa in calls:
            n += 1
            if len(ch) != 1: c.on_path("G05.rules", p, None, "", f); continue
            L = ch[0][0]; how = covers(p, L, G)
            c.on_path("G05.rules", p, None if how is None else how == "all" and e.args[0] == T("item", G, idx(L)), "not every rule of a grammar is read", f)
            a = p.eng.loops[L].alts
            skip = [i for i in range(len(a)) if not any(x.kind == "call" and x.d.get("name") == "parse_simple_rule" for x in a[i].trace)]
            al = p.st.loops.get(L, ("all", None))[1]
            c.on_path("G05.rules", p, not any(al is None or i in al for i in skip), "a rule of a grammar is skipped", f)
            kept = all(any(e.result in subterms(g) for em in x.emits.values() for g in em) or any(v.kind == "call" and v.d.get("name") == "add_rule" for v in x.trace) for i, x in enumerate(a) if al is None or i in al)
            c.on_path("G05.kept", p, kept, "a rule that was read is not added to the grammar", f)
    c.ob("G05.rules-found", True if n else None, c.where(f), "rules are read")
    # a GrammarRules object keeps every rule it is given
    f = c.prog.method("GrammarRules", "__init__"); R = param(f.params[1]); n = 0
    for p in c.method("GrammarRules", "__init__", opaque={"add_rule"}):
        if p.raises: continue
        for e, ch, fa in p.calls("add_rule"):
            n += 1
            how = covers(p, ch[0][0], R) if len(ch) == 1 else None
            c.on_path("G05.added", p, None if how is None else how == "all" and e.args[0] == T("item", R, idx(ch[0][0])), "not every rule is added", f)
            if len(ch) == 1: c.on_path("G05.added", p, every_turn(p, ch[0][0], "add_rule"), "a rule is not added", f)
    c.ob("G05.added-found", True if n else None, c.where(f), "rules are added")


def every_turn(p, L, name):
    mode, al = p.st.loops.get(L, ("all", None)); a = p.eng.loops[L].alts
    return all(any(x.kind == "call" and x.d.get("name") == name for x in b.trace) for i, b in enumerate(a) if al is None or i in al)


def rule_fields(c):
    f = c.prog.method(GP, "parse_simple_rule"); R = param(f.params[1]); n = 0
    for p in c.method(GP, "parse_simple_rule", opaque={"parse_syntax"}):
        has = p.dec(("in", K("syn"), R))
        if p.raises:
            if p.v[3] == "explicit": c.on_path("G05.syn", p, None if has is None else not has, "a rule that has a syntax string is refused", f)
            continue
        n += 1
        calls = p.calls("parse_syntax")
        c.on_path("G05.syn", p, True if calls and calls[0][0].args[0] == item(R, "syn") and has is not False else False if not p.imprecise and (has is False or not calls) else None, "a rule without a syntax string is accepted", f)
    c.ob("G05.syn-found", True if n else None, c.where(f), "rules are read")
