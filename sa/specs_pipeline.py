"""P01-P05: blocks, execution, errors, locales, the chain of blocks."""
from .spec import *
from .specs_grammar import nc, phi_updates, every_alt

SELF = param("self"); REQ = param("request"); PROC = attr(SELF, "processor"); NEXT = attr(SELF, "next_block")
EMPTY = K("")


def is_call(v, name, recv=None): return is_t(v, "call") and v[2] == name and (recv is None or v[3] == recv)


def put_to(e, field):
    """this event stores the value under the key in the request's table `field`: (key, value)"""
    if e.kind == "put" and e.d.get("target") == attr(REQ, field): return e.d["key"], e.d["value"]
    return None


def outcome(p, v):
    """(error_type, error_args) of a BlockResult value"""
    if is_t(v, "new"): return new_field(v, "error_type"), new_field(v, "error_args")
    return attr(v, "error_type"), attr(v, "error_args")


def is_failed(p, v):
    """error type v is not '' on this path: True/False/None"""
    return p.is_true(v) if v is not None else None


def own_result(p):
    ev = [e for e, ch, f in p.calls() if e.d.get("name") in ("process", "exec_process") and not ch and (e.d.get("recv") == PROC or e.d["args"][:1] == (PROC,) or e.d["args"][:1] == [PROC])]
    return ev


def next_calls(p):
    return [(i, e, ch, f) for i, (e, ch, f) in enumerate(p.events()) if e.kind == "call" and e.d.get("name") == "process" and e.d.get("recv") == NEXT]


def block(c, cname, kind):
    f = c.prog.method(cname, "process"); n = 0
    for p in c.method(cname, "process", opaque={"add_process_result"}):
        own = own_result(p)
        if p.raises:
            c.on_path("P01.raises", p, False if p.v[3] == "explicit" else None, "a block raises an error itself", f); continue
        if len(own) != 1:
            c.on_path("P01.process-once", p, False if not p.imprecise else None, "the block's processor is not executed exactly once per request", f); continue
        R = own[0].result; rt = attr(R, "error_type"); ra = attr(R, "error_args"); prods = attr(R, "products")
        evs = list(p.events()); nx = next_calls(p); t, a = outcome(p, p.v)
        failed = p.is_true(rt)
        if failed is None: failed = None if p.dec(norm_eq(rt, EMPTY)) is None else not p.dec(norm_eq(rt, EMPTY))
        if failed is None: c.on_path("P01.processor-error", p, None if p.imprecise else False, "a processor error is not distinguished from success", f); continue
        if failed:
            n += 1
            ok = p.v == R or (t == rt and a == ra)
            c.on_path("P01.processor-error", p, ok and not nx, "a processor's error is not returned at once with its arguments", f); continue
        # products stored for later reading
        alt = [put_to(e, "alternative_products") for e, ch, fa in evs if put_to(e, "alternative_products") and not ch]
        if not alt: c.on_path("P01.alternatives-stored", p, False, "the alternatives of the processor are not stored in the request", f)
        for k, v in alt:
            kept = v == prods or contains(v, prods)
            if any(is_t(x, "slice") and strip_seq(x) == (prods, "part") for x in subterms(v)): kept = False
            c.on_path("P01.alternatives-stored", p, k == PROC and kept, "the alternatives of the processor are not stored under it", f)
            if kind == "all" and kept: c.on_path("P01.alternatives-collected", p, any(is_t(x, "item") and x[2] == attr(REQ, "alternative_products") for x in subterms(v)) or p.dec(("in", PROC, attr(REQ, "alternative_products"))) is False or is_t(v, "mut"), "the block that finds all forgets the alternatives of earlier rounds", f)
        for i, e, ch, fa in nx:
            c.on_path("P01.same-request", p, list(e.d["args"]) == [REQ], "the rest of the pipeline does not get the request", f)
            if len(ch) > 1: c.on_path("P01.each-alternative", p, None, "alternatives are tried in nested loops", f); continue
        if nx and not loops_over(c, p, f, nx, prods, kind): continue
        # which product is current when the next block runs
        for i, e, ch, fa in nx:
            cur = None
            for e2, ch2, fa2 in evs[:i]:
                pu = put_to(e2, "current_products")
                if pu and (ch2 == ch): cur = pu
            if cur is None: c.on_path("P01.current", p, False if not p.imprecise else None, "the rest of the pipeline runs without the alternative being made current", f); continue
            want = own_product(p, cur[1], prods, ch)
            c.on_path("P01.current", p, (cur[0] == PROC and want) if want is not None else None, "the rest of the pipeline does not see the alternative that is tried", f)
        n += 1
        result(c, p, f, kind, nx, t, a, prods, R)
    c.ob("P01.found", True if n >= 2 else None, c.where(f), f"{cname} analysed")


def own_product(p, v, prods, ch):
    if not is_t(v, "item"): return None
    if v[2] != prods and strip_seq(v[2])[0] != prods: return False if not contains(v, prods) else None
    return True


def loops_over(c, p, f, nx, prods, kind):
    if any(not ch for i, e, ch, fa in nx):
        for L in p.st.loops:
            how = covers(p, L, prods)
            if how is None: continue
            d, hw = strip_seq(p.eng.loops[L].dom)
            if hw in ("reversed", "reordered", "unordered"): c.on_path("P01.order", p, False, "the alternatives are not tried in order", f); return False
            if hw == "part" and kind != "first": c.on_path("P01.each-alternative", p, False, "not every alternative is tried", f); return False
            if hw == "part":
                s = next((x for x in subterms(p.eng.loops[L].dom) if is_t(x, "slice")), None)
                c.on_path("P01.only-first", p, s is not None and s[3] in (NONE, K(0)), "not the first alternative is tried", f)
    for i, e, ch, fa in nx:
        if ch:
            L = ch[0][0]; how = covers(p, L, prods)
            if how is None: c.on_path("P01.each-alternative", p, None, "the alternatives that are tried are not understood", f); return False
            if how in ("reversed", "reordered", "unordered"): c.on_path("P01.order", p, False, "the alternatives are not tried in order", f); return False
            d, hw = strip_seq(p.eng.loops[L].dom)
            if hw == "part" and kind != "first": c.on_path("P01.each-alternative", p, False, "not every alternative is tried", f); return False
            if hw == "part" and kind == "first":
                ok = p.eng.loops[L].dom; s = next((x for x in subterms(ok) if is_t(x, "slice")), None)
                c.on_path("P01.only-first", p, s is not None and s[3] in (NONE, K(0)) and s[4] == K(1), "not only the first alternative is tried", f)
    return True


def result(c, p, f, kind, nx, t, a, prods, R):
    empty = p.dec(("truthy", prods)) is False or p.dec(norm_eq(T("len", prods), K(0))) is True
    direct = [e for i, e, ch, fa in nx if not ch]
    loops = sorted({ch[0][0] for i, e, ch, fa in nx if ch})
    if empty and not nx: return
    if not nx and any(covers(p, L, prods) for L, (m, al) in p.st.loops.items() if m == "all" and not p.eng.loops[L].alts or m == "all" and al is not None and not al): return   # nothing to try
    if not nx:
        if kind == "first" and p.st.loops == {} and p.imprecise: return
        c.on_path("P01.each-alternative", p, False if t in (EMPTY, None) and not any(p.eng.loops[L] for L in p.st.loops) else None, "no alternative is tried", f); return
    if kind == "first":
        # whatever happens, at most one turn
        for L in loops:
            lp = p.eng.loops[L]; mode, al = p.st.loops.get(L, ("all", None))
            body = [i for i, e, ch, fa in nx if ch and ch[0][0] == L]
            d, hw = strip_seq(lp.dom)
            if hw == "part": continue
            c.on_path("P01.only-first", p, False if body and (al is None or al) else True, "another alternative is tried after the first", f)
        if direct:
            N = direct[-1].result
            c.on_path("P01.only-first", p, len(direct) == 1, "more than one alternative is tried", f)
            c.on_path("P01.outcome", p, p.v == N or (t == attr(N, "error_type") and a == attr(N, "error_args")) or (t == EMPTY and p.is_true(attr(N, "error_type")) is False), "the outcome of the first alternative is not returned", f)
        return
    if kind == "one":
        for L in loops:
            lp = p.eng.loops[L]; al = p.st.loops.get(L, ("all", None))[1]
            for i, alt in enumerate(lp.alts):
                if al is not None and i not in al: continue
                N = [e for j, e, ch, fa in nx if ch == ((L, i),)]
                if not N: c.on_path("P01.each-alternative", p, False, "an alternative is skipped", f); continue
                went = p.eng.decide(fstate(alt.facts), ("truthy", attr(N[0].result, "error_type")))
                if went is None: went = fails(p, alt.facts, N[0].result)
                c.on_path("P01.stops", p, went is True if went is not None else False, "the block goes on after an alternative that succeeded", f)
        if direct:   # left the loop in this turn
            N = direct[-1].result; bad = fails(p, p.facts, N)
            if bad is False: c.on_path("P01.outcome", p, t == EMPTY or p.v == N or t == attr(N, "error_type"), "success of an alternative is not returned as success", f)
            elif bad is True: c.on_path("P01.stops", p, False, "the block gives up after an alternative that failed", f)
            else: c.on_path("P01.stops", p, False if not p.imprecise else None, "the block stops without looking at the outcome of the alternative", f)
            return
        first_error(c, p, f, t, a, loops, nx); return
    # all
    if direct: c.on_path("P01.each-alternative", p, False, "the block stops before all alternatives are tried", f); return
    for L in loops:
        al = p.st.loops.get(L, ("all", None))[1]; lp = p.eng.loops[L]
        if p.st.loops.get(L, ("all", None))[0] != "all" or lp.exits and any(x.ctl[0] != "raise" for x in lp.exits): c.on_path("P01.each-alternative", p, False, "the block stops before all alternatives are tried", f); return
        for i in range(len(lp.alts)):
            if al is not None and i not in al: continue
            if not any(ch == ((L, i),) for j, e, ch, fa in nx): c.on_path("P01.each-alternative", p, False, "an alternative is skipped", f)
    ok = success_flag(p, loops, nx, t == EMPTY)
    if t == EMPTY: c.on_path("P01.success-if-any", p, ok, "success is returned although no alternative succeeded", f)
    else:
        c.on_path("P01.success-if-any", p, ok, "an error is returned although an alternative succeeded", f)
        first_error(c, p, f, t, a, loops, nx)


def fails(p, facts, N):
    et = attr(N, "error_type")
    d = p.eng.decide(fstate(facts), ("truthy", et))
    if d is None:
        d = p.eng.decide(fstate(facts), norm_eq(et, EMPTY)); d = None if d is None else not d
    return d


def success_flag(p, loops, nx, success):
    """is the outcome (success or not) that of a loop variable that is set exactly in the turns that succeed?"""
    seen = False; best = False
    for L in loops:
        lp = p.eng.loops[L]
        for key in lp.phi_init:
            ph = T("phi", L, key); i0 = lp.phi_init[key]
            d = p.is_true(ph)
            if d is None and i0 == NONE:
                n = p.dec(("isnone", ph)); d = None if n is None else not n
            if d is None or is_error(lp, nx, L, key): continue
            seen = True
            spurious = True if i0 == K(True) else False if i0 in (K(False), NONE, K(0)) else None
            missing = False
            al = p.st.loops.get(L, ("all", None))[1]
            for i, alt in enumerate(lp.alts):
                if al is not None and i not in al: continue          # such a turn cannot have happened on this path
                N = [e for j, e, ch, fa in nx if ch == ((L, i),)]
                if not N: missing = spurious = None; break
                q = Path(p.eng, fstate(alt.facts), "return", NONE)
                bad = fails(p, alt.facts, N[0].result); v = alt.next.get(key, ph)
                if i0 == K(True) and v != ph: spurious = None
                tv = q.is_true(v) if v != ph else None; was = q.is_true(ph)
                if bad is None:
                    if v == ph: missing = True
                    else: missing = spurious = None
                    if tv is True: spurious = True
                elif bad is False:
                    if v == ph and was is not True or tv is False: missing = True
                    elif v != ph and tv is None: missing = None if missing is not True else True
                else:
                    if tv is True and was is not True: spurious = True
                    elif tv is False and was is not False: missing = True
                    elif v != ph and tv is None: spurious = None if spurious is not True else True
            r = spurious if success == d else missing if success != d and not d else None
            if success and d: r = spurious
            elif not success and not d: r = missing
            else: return False          # the flag is used the wrong way around
            v = True if r is False else None if r is None else False
            if v is True: return True
            best = None if v is None else best
    if not seen and any(any(contains(x, e.result) for x in k.args) for k, ch, fa in p.events("mutate") for j, e, ch2, fa2 in nx): return None      # the outcomes are collected, and looked at later
    return best if seen else False


def is_error(lp, nx, L, key):
    """the variable holds the error of a turn, not a flag"""
    for i, alt in enumerate(lp.alts):
        for j, e, ch, fa in nx:
            if ch == ((L, i),) and alt.next.get(key) in (attr(e.result, "error_type"), attr(e.result, "error_args"), e.result): return True
    return False


def first_error(c, p, f, t, a, loops, nx):
    """t, a: the error that is returned after the loop; must be that of the first turn that failed"""
    if (t is None or t == EMPTY) and any(no_turns(p, L) for L in loops): return       # nothing to try
    if t is None or t == EMPTY:
        c.on_path("P01.failure", p, False if not p.imprecise else None, "success is returned although no alternative succeeded", f); return
    pt = next((x for x in subterms(t) if is_t(x, "phi") and x[2] in loops), None); pa = next((x for x in subterms(a) if is_t(x, "phi") and x[2] in loops), None) if a is not None else None
    if pt is None:
        c.on_path("P01.first-error", p, None, "the error that is returned is not understood", f); return
    if pa is None: c.on_path("P01.error-args", p, False, "the arguments of the error are not returned", f); return
    L = pt[2]; lp = p.eng.loops[L]
    for i, alt in enumerate(lp.alts):
        N = [e for j, e, ch, fa in nx if ch == ((L, i),)]
        if not N: continue
        N = N[0].result
        q = Path(p.eng, fstate(alt.facts), "return", NONE)
        vt = alt.next.get(pt[3], T("phi", L, pt[3])); va = alt.next.get(pa[3], T("phi", L, pa[3]))
        keep_t = vt == T("phi", L, pt[3]); keep_a = va == T("phi", L, pa[3])
        take_t = vt in (N, attr(N, "error_type")) or is_t(vt, "new") and new_field(vt, "error_type") == attr(N, "error_type")
        take_a = va in (N, attr(N, "error_args")) or is_t(va, "new") and new_field(va, "error_args") == attr(N, "error_args")
        bad = fails(p, alt.facts, N)
        have = have_error(q, pt)
        if keep_t and keep_a:
            c.on_path("P01.first-error", p, True if have is True or bad is False else False if have is False and bad is True else None, "the error of the first alternative that failed is not kept", f)
        elif take_t and take_a:
            c.on_path("P01.first-error", p, True if have is False and bad is True else False, "an error of a later alternative replaces the first, or a success counts as an error", f)
        elif (keep_t and take_a) or (take_t and keep_a):
            c.on_path("P01.error-args", p, False, "the error that is returned has the arguments of another error", f)
        else: c.on_path("P01.first-error", p, None, f"the error that is remembered is not understood: {show(vt)[:100]}", f)


def no_turns(p, L):
    """the path knows that the loop had no turn: a variable still has its first value (None), which every turn replaces"""
    lp = p.eng.loops[L]
    for key, i0 in lp.phi_init.items():
        ph = T("phi", L, key)
        if i0 == NONE and p.dec(("isnone", ph)) is True:
            ok = True
            for alt in lp.alts:
                v = alt.next.get(key, ph); q = Path(p.eng, fstate(alt.facts), "return", NONE)
                none = q.dec(("isnone", ph)) if v == ph else q.dec(("isnone", v))
                if none is None and is_t(v, "call") and v != ph: none = False if p.eng.typeof(v, p.st) not in (None, ("none",)) else None
                if none is not False: ok = False
            if ok and lp.alts: return True
    return False


def have_error(q, ph):
    d = q.dec(("truthy", ph))
    if d is None: d = q.dec(("isnone", ph)); d = None if d is None else not d
    if d is None: d = q.dec(norm_eq(ph, EMPTY)); d = None if d is None else not d
    if d is None: d = q.dec(("truthy", attr(ph, "error_type")))
    return d


@spec("P01", least=20)
def P01(c):
    for n, k in (("FindOne", "one"), ("FindAll", "all"), ("TryFirst", "first")): block(c, n, k)
    # processors run through the request, whose result is theirs
    f = c.prog.method("SentenceRequest", "exec_process"); pr = param("processor")
    for p in c.method("SentenceRequest", "exec_process", opaque={"add_process_result"}):
        calls = [e for e, ch, fa in p.calls("process")]
        if p.raises: continue
        ok = len(calls) == 1 and calls[0].d.get("recv") == pr and list(calls[0].d["args"]) == [SELF]
        c.on_path("P01.exec", p, ok and p.v == calls[0].result, "executing a processor does not call it once with the request and return its result", f)


# ---------------------------------------------------------------- P02
def current(v):
    """processor whose current product v is"""
    if is_t(v, "item") and v[2] == attr(REQ, "current_products"): return v[3]
    if is_call(v, "get_current_product", REQ): return v[4][0]
    return None


@spec("P02", least=8)
def P02(c):
    f = c.prog.method("AtomExecutor", "process"); n = 0; comp = attr(SELF, "composer")
    for p in c.method("AtomExecutor", "process", opaque={"write_atom", "solve", "solve_single", "should_log_stats", "get_semantics_last_iteration"}):
        if p.raises: c.on_path("P02.raises", p, False if p.v[3] == "explicit" else None, "the executor raises an error itself", f); continue
        if p.dec(("in", comp, attr(REQ, "current_products"))) is False: continue
        n += 1
        inc = T("item", attr(REQ, "current_products"), comp)
        if not any(contains(x, inc) for e, ch, fa in p.calls() for x in list(e.d["args"]) + [e.d.get("recv") or NONE]): c.on_path("P02.input", p, None if p.imprecise else False, "the executor does not use the current product of its composer", f); continue
        steps = []
        for e, ch, fa in p.calls(("write_atom", "solve")):
            a = e.d["args"][0] if e.d["args"] else None; rc = e.d.get("recv")
            md = new_field(rc, "model") if is_t(rc, "new") else None
            c.on_path("P02.model", p, (md == attr(SELF, "model")) if is_t(rc, "new") else None, "the sentence is not executed on the configured model", f)
            if e.d["name"] == "write_atom":
                L = ch[0][0] if len(ch) == 1 else None
                how = covers(p, L, attr(inc, "inferences")) if L is not None else None
                own = L is not None and is_t(a, "item") and strip_seq(a[2])[0] == attr(inc, "inferences") and lin(a[3]) and lin(a[3])[0] == idx(L)
                if how is None and L is not None and strip_seq(p.eng.loops[L].dom) == (attr(inc, "inferences"), "part"): how = "part"
                if own and how == "all":
                    lp = p.eng.loops[L]; al = p.st.loops.get(L, ("all", None))[1]
                    for i, b in enumerate(lp.alts):
                        if al is not None and i not in al: continue
                        if not any(x.kind == "call" and x.d.get("name") == "write_atom" or x.kind == "loop" for x in b.trace): c.on_path("P02.each-inference", p, False, "an inference of the sentence is not stored", f)
                steps.append(("infer", how if own else None, ch, e))
            elif not ch:
                if a == attr(inc, "executable"): steps.append(("exec", "all", ch, e))
                elif is_call(a, "get_semantics_last_iteration", inc): steps.append(("solve", "all", ch, e))
                else:
                    steps.append(("?", None, ch, e)); b = strip_copy(a) if a is not None else None
                    if is_t(b, "slice") and (b[2] == attr(inc, "executable") or is_call(b[2], "get_semantics_last_iteration", inc)) and (is_k(b[3]) and b[3] not in (NONE, K(0)) or is_k(b[4]) and b[4] != NONE) and not any(contains(q, b[2]) and q[0] != "truthy" for q in p.facts):
                        c.on_path("P02.whole", p, False, "only a part of the atoms of the sentence is solved", f)
            else:
                # one atom at a time: a variable that one atom binds is unbound again for the next
                L = ch[0][0] if len(ch) == 1 else None
                its1 = p.seq(a) if is_t(a, "list") else None
                if L is not None and its1 and len(its1) == 1 and its1[0].kind == "one" and is_t(its1[0].val, "item") and (its1[0].val[2] == attr(inc, "executable") or is_call(its1[0].val[2], "get_semantics_last_iteration", inc)) and its1[0].val[3] == idx(L) and len(e.d["args"]) < 2 and not e.d.get("kwargs"):
                    c.on_path("P02.whole", p, False, "the atoms of the sentence are solved one by one: they do not share their variables", f)
                steps.append(("?", None, ch, e))
        unk = any(s[0] == "?" or s[1] is None for s in steps)
        kinds = [s[0] for s in steps]; seen = list(dict.fromkeys(kinds))
        for k, what in (("infer", "the inferences of the sentence are not stored"), ("exec", "the executable atoms of the sentence are not executed"), ("solve", "the meaning of the sentence is not solved")):
            src = attr(inc, "executable") if k == "exec" else attr(inc, "inferences") if k == "infer" else None
            if src and k not in kinds and p.dec(("truthy", src)) is False: continue         # there is nothing to do
            c.on_path("P02.each", p, True if k in kinds else None if unk else False, what, f)
        if unk: c.on_path("P02.steps", p, None, "a step of the execution is not understood", f); continue
        c.on_path("P02.order", p, seen == [k for k in ("infer", "exec", "solve") if k in seen], "the sentence is not executed in the order inferences, commands, meaning", f)
        for k in ("exec", "solve"): c.on_path("P02.once", p, kinds.count(k) <= 1, "a step of the execution is done more than once", f)
        inf = [s for s in steps if s[0] == "infer"]
        for s in inf: c.on_path("P02.all-inferences", p, s[1] == "all", "not every inference is stored, or not in order", f)
        Ls = {s[2][0][0] for s in inf}
        c.on_path("P02.once", p, len(Ls) <= 1, "inferences are stored more than once", f)
        for L in Ls:
            al = p.st.loops.get(L, ("all", None))[1]
            for j in range(len(p.eng.loops[L].alts)):
                if al is None or j in al:
                    k = sum(s[2][0] == (L, j) for s in inf)
                    c.on_path("P02.all-inferences", p, k == 1, "an inference is skipped or stored twice", f)
            if any(x.ctl[0] != "raise" for x in p.eng.loops[L].exits): c.on_path("P02.all-inferences", p, False, "storing the inferences stops early", f)
        sv = [s[3].result for s in steps if s[0] == "solve"]
        pv = new_field(p.v, "products")
        items = p.seq(pv) if pv is not None else None
        if not items or len(items) != 1 or items[0].kind != "one": c.on_path("P02.product", p, None if items is None else False, "the executor does not return one product", f); continue
        b = new_field(items[0].val, "bindings")
        c.on_path("P02.product", p, (b in sv or strip_copy(b) in sv) if b is not None and sv else None, "the product is not the solutions of the meaning", f)
        c.on_path("P02.no-error", p, new_field(p.v, "error_type") == EMPTY, "executing a sentence ends in an error type", f)
    c.ob("P02.found", True if n else None, c.where(f), "executor analysed")
    # the final optimized meaning
    f = c.prog.method("SemanticComposerProduct", "get_semantics_last_iteration"); its = attr(SELF, "semantics_iterations")
    for p in c.method("SemanticComposerProduct", "get_semantics_last_iteration"):
        if p.raises: continue
        c.on_path("P02.last-iteration", p, last_of(p, p.v, its), "the meaning that is solved is not the last iteration", f)
    f = c.prog.method("AtomExecutorProduct", "get_output")
    for p in c.method("AtomExecutorProduct", "get_output"):
        c.on_path("P02.output", p, strip_copy(p.v) == attr(SELF, "bindings"), "the output of the executor is not the solutions", f)


def last_of(p, v, d):
    """v is the last value of dict d (None: not understood)"""
    if v == NONE:
        e = [p.dec(("truthy", x)) for x in (d, T("values", d), T("listof", T("values", d)))]
        return True if False in e else None
    if is_t(v, "phi"):
        L = v[2]; lp = p.eng.loops[L]
        if not contains(lp.dom, d): return None
        how = strip_seq(lp.dom)[1]
        if how == "reversed": return False
        vals = []
        for i, a in enumerate(lp.alts):
            x = a.next.get(v[3], v); vals.append(x)
        k = [x for x in vals if x != v]
        if any(x == v for x in vals): return False
        own = [is_t(x, "item") and contains(x, d) and contains(x, idx(L)) or contains(lp.dom, d) and contains(x, idx(L)) for x in k]
        return all(own) if how == "all" and p.st.loops.get(L, ("all", None))[0] == "all" else None
    if is_t(v, "item"):
        b, i = v[2], v[3]
        if contains(b, d):
            s, how = strip_seq(b)
            if i == K(-1): return True if how == "all" else False if how == "reversed" else None
            if i == K(0): return True if how == "reversed" else False
            if b == d:
                if is_k(i): return False
                return last_of_keys(i, d)
    return None


def last_of_keys(i, d):
    if is_t(i, "item") and contains(i[2], d):
        s, how = strip_seq(i[2])
        if i[3] == K(-1): return how == "all"
        if i[3] == K(0): return how == "reversed"
    return None


# ---------------------------------------------------------------- P03
def atoms_of(v):
    """list/tuple value -> its elements, or None"""
    if v is None: return None
    if v[0] == "tup": return list(v[1:])
    if is_t(v, "tupof"): return atoms_of(v[2])
    if is_t(v, "list"):
        out = []
        for s in v[2:]:
            if s[0] == "one": out.append(s[1])
            elif s[0] == "spread": out.append(("*", s[1]))
            else: return None
        return out
    return None


def fails_of(p, r):
    return fails(p, p.facts, r)


def selected(y):
    """only some of the elements"""
    return any(is_t(z, "slice") and not (z[3] in (NONE, K(0)) and z[4] == NONE) or is_t(z, "item") and is_k(z[3]) for z in subterms(y))


@spec("P03", least=10)
def P03(c):
    f = c.prog.method("System", "enter"); n = 0; pipe = attr(SELF, "reader_pipeline")
    for p in c.method("System", "enter", opaque={"solve", "write_atom", "get_output", "get_current_product"}):
        if p.raises: c.on_path("P03.raises", p, False if p.v[3] == "explicit" else None, "entering a sentence raises an error by itself", f); continue
        pr = [e for e, ch, fa in p.calls("process")]
        if len(pr) != 1: c.on_path("P03.process", p, None if p.imprecise else False, "the pipeline is not run once", f); continue
        r = pr[0].result; bad = fails(p, p.facts, r)
        wr = p.calls(("solve", "write_atom"))
        if bad is None: c.on_path("P03.error-stored", p, False if not p.imprecise else None, "a failure of the pipeline is not distinguished from success", f); continue
        n += 1
        if not bad:
            c.on_path("P03.nothing-stored", p, not wr, "output is stored although the pipeline succeeded", f)
            last = attr(T("item", pipe, K(-1)), "processor")
            v = p.v
            if is_call(v, "get_output"):
                cur = current(v[3])
                other = is_t(v[3], "item") and is_k(v[3][3]) and any(x == attr(REQ, "alternative_products") for x in subterms(v[3][2]))
                c.on_path("P03.product", p, (cur == last) if cur is not None else False if other else None, "the output is not that of the current product of the last processor", f)
            else: c.on_path("P03.product", p, False if v == NONE else None, "the product of the last processor is not returned", f)
            continue
        stored = []; unk = False
        for e, ch, fa in wr:
            if ch: unk = True; continue
            a = e.d["args"][0]; a = p.eng.freeze(p.st, a)
            if e.d["name"] == "write_atom": stored.append(a); continue
            q = atoms_of(a)
            if q is None: unk = True; continue
            for at in q:
                t = atoms_of(at)
                if not t or t[0] != K("store"): unk = True; continue
                for x in t[1:]:
                    if is_t(x, "list"): stored += atoms_of(x) or [None]
                    else: stored.append(x)
            md = new_field(e.d.get("recv"), "model") if is_t(e.d.get("recv"), "new") else None
            c.on_path("P03.model", p, (md == attr(SELF, "model")) if md is not None else None, "the error is not stored in the system's model", f)
        if unk: c.on_path("P03.error-stored", p, None, "the way the error is stored is not understood", f); continue
        st = [atoms_of(x) for x in stored]
        et = attr(r, "error_type"); ea = attr(r, "error_args")
        want1 = [K("output_type"), et]
        names = [(x or [None])[0] for x in st]
        c.on_path("P03.error-stored", p, want1 in st, "the error type is not stored as output", f)
        o2 = [x for x in st if x and x != want1]
        named = [x for x in o2 if is_t(x[0], "fstr") and x[0][2:] == (K("output_"), et) or is_t(x[0], "bin") and x[0][2] == "+" and x[0][3] == K("output_") and x[0][4] == et]
        c.on_path("P03.args-stored", p, True if any(len(x) == 2 and x[1] in (("*", ea), ("starunk", ea)) for x in named) else False if not named else None if any(contains(y, ea) and not selected(y) for x in named for y in x[1:]) else False, "the arguments of the error are not stored as output", f)
        c.on_path("P03.nothing-else", p, len(st) == 2 if named and want1 in st else None, "something else than the error is stored as output", f)
    c.ob("P03.found", True if n else None, c.where(f), "System.enter analysed")
    vocabulary(c)


ERR = "UNKNOWN_WORD NO_SENTENCE NOT_UNDERSTOOD".split()


def error_types(c):
    """constant error types the library's processors produce, with the number of their arguments"""
    out = {}
    f = c.prog.method("EarleyParser", "parse")
    for p in c.method("EarleyParser", "parse", opaque={"buildChart", "extract_tree_roots", "get_next_word", "re_compile"}):
        if p.raises: continue
        t = new_field(p.v, "error_type"); a = new_field(p.v, "error_args")
        if t is None or t == EMPTY: continue
        if not is_k(t): out.setdefault(None, []).append((p, f)); continue
        n = atoms_of(a) if a is not None else []
        out.setdefault(kv(t), []).append((len(n) if n is not None and all(x[0] != "*" for x in n) else None, p, f))
    return out


def vocabulary(c):
    e, s0, mod, tab = relation_table(c, "BasicOutputBuffer")
    w = c.where(("BasicOutputBuffer", "__init__"))
    def width(pred):
        if pred not in tab: return None
        a = s0.fields.get((tab[pred], "arguments"))
        fz = e.freeze(s0, a) if a is not None else None
        xs = atoms_of(fz) if fz is not None else None
        return None if xs is None else len(xs)
    ok = "output_type" in tab
    c.ob("P03.relation", ok, w, "the output buffer has no relation output_type")
    if ok: c.ob("P03.relation-width", None if width("output_type") is None else width("output_type") == 1, w, "output_type has another number of arguments than the one it is stored with")
    ets = error_types(c)
    c.ob("P03.error-types", True if len([k for k in ets if k]) >= 1 else None, c.where(("EarleyParser", "parse")), "error types of the parser found")
    write = write_rules(c)
    for k, l in sorted(ets.items(), key=str):
        if k is None:
            c.ob("P03.error-types", None, c.where(l[0][1]), "an error type that is not understood"); continue
        pred = "output_" + k
        c.ob("P03.relation", pred in tab, w, f"the output buffer has no relation {pred}, which the error {k} is stored as")
        for n, p, f in l:
            if pred in tab: c.ob("P03.relation-width", None if n is None or width(pred) is None else n == width(pred), w, f"{pred} is stored with {n} arguments but the output buffer's relation has {width(pred)}", p.brief())
        if write is not None:
            mine = [r for r in write if (K("output_type"), K(k)) in r["if"]]
            unk = any(r["unknown"] for r in write)
            c.ob("P03.text", True if mine else None if unk else False, write[0]["where"] if write else "", f"the library's write grammar has no text for the error {k}")
            for r in mine:
                for at in r["if"]:
                    if at[0] == K("output_type") or not is_k(at[0]): continue
                    ok = kv(at[0]) in tab and (width(kv(at[0])) in (None, len(at) - 1))
                    c.ob("P03.text-args", ok, r["where"], f"the write rule for {k} uses {kv(at[0])} with {len(at) - 1} arguments")
                used = [x for x in r["if"] if x[0] == K(pred)]
                if width(pred): c.ob("P03.text-args", bool(used), r["where"], f"the write rule for {k} does not use the arguments of the error")


def write_rules(c):
    """the library's write grammar, read from its source"""
    try: f = c.prog.function("get_en_us_write_grammar")
    except AnalysisBroken: return None
    out = []
    for p in c.function("get_en_us_write_grammar"):
        for it in p.seq():
            if it.kind != "one" or not is_t(it.val, "dict"): out.append(dict(unknown=True, where=c.where(f), **{"if": []})); continue
            cond = []; unknown = False
            for s in it.val[2:]:
                if s[0] == "put" and s[1] == K("if"):
                    for a in atoms_of(s[2]) or []:
                        t = atoms_of(a)
                        if t is None: unknown = True
                        else: cond.append(tuple(t))
                elif s[0] != "put": unknown = True
            out.append({"if": cond, "unknown": unknown, "where": c.where(f)})
    return out


# ---------------------------------------------------------------- P04
@spec("P04", least=5)
def P04(c):
    f = c.prog.method("LanguageSelector", "process"); loc = attr(SELF, "locales"); n = 0
    for p in c.method("LanguageSelector", "process"):
        if p.raises: continue
        pr = new_field(p.v, "products"); its = p.seq(pr) if pr is not None else None
        if its is None: c.on_path("P04.offers", p, None, "the products are not understood", f); continue
        n += 1
        c.on_path("P04.no-error", p, new_field(p.v, "error_type") == EMPTY, "selecting a language ends in an error", f)
        if not its: c.on_path("P04.offers", p, False if p.dec(("truthy", loc)) is not False else True, "no locale is offered", f)
        for it in its:
            if it.kind == "skip": c.on_path("P04.offers", p, False, "a locale is skipped", f); continue
            if it.kind != "one" or len(it.chain) != 1:
                c.on_path("P04.offers", p, None if not (it.kind == "one" and not it.chain) else False, "the locales that are offered are not understood", f); continue
            L = it.chain[0][0]; how = covers(p, L, loc)
            if how is None: c.on_path("P04.offers", p, None, "the locales that are offered are not understood", f); continue
            c.on_path("P04.offers", p, how == "all", "not every locale is offered, in order", f)
            v = new_field(it.val, "locale")
            c.on_path("P04.own-locale", p, (v == el(p.eng, loc, L)) if v is not None else None, "the product does not carry the locale of its turn", f)
        per = {}
        for it in its:
            if it.chain and it.kind == "one": per[it.chain[-1]] = per.get(it.chain[-1], 0) + 1
        c.on_path("P04.once", p, all(v == 1 for v in per.values()), "a locale is offered more than once", f)
    c.ob("P04.found", True if n else None, c.where(f), "language selector analysed")
    f = c.prog.method("Multilingual", "process"); n = 0; ps = attr(SELF, "processors"); sel = attr(SELF, "language_selector")
    inc = T("item", attr(REQ, "current_products"), sel); lo = attr(inc, "locale")
    for p in c.method("Multilingual", "process"):
        if p.dec(("in", sel, attr(REQ, "current_products"))) is False: continue
        n += 1
        has = p.dec(("in", lo, ps))
        if has is None:
            g = [a for a, t in p.facts.items() if a[0] == "isnone" and contains(a, lo)]
            has = None if not g else not p.facts[g[0]]
        calls = p.calls("process")
        if p.raises:
            c.on_path("P04.error", p, False if has is True else True if has is False else False if p.v[3] == "explicit" else None, "an error is raised although there is a processor for the locale", f)
            if has is False and p.msg() is not None: c.on_path("P04.names-locale", p, contains(p.msg(), lo), "the error does not name the locale", f)
            continue
        if has is False: c.on_path("P04.error", p, False, "a locale without a processor does not raise an error", f); continue
        if len(calls) != 1: c.on_path("P04.processor", p, None if p.imprecise else False, "the request is not handed to one processor", f); continue
        e = calls[0][0]; rc = e.d.get("recv")
        own = is_t(rc, "item") and rc[2] == ps and rc[3] == lo or is_call(rc, "get", ps) and rc[4][0] == lo
        c.on_path("P04.processor", p, own if own or is_t(rc, "item") and rc[2] == ps else None if not is_t(rc, "item") else False, "the request is not handed to the processor of the current locale", f)
        c.on_path("P04.request", p, list(e.d["args"]) == [REQ], "the processor does not get the request", f)
        c.on_path("P04.result", p, p.v == e.result, "the processor's result is not returned unchanged", f)
        if has is None and is_t(rc, "item"): c.on_path("P04.error", p, False if not p.imprecise else None, "a locale without a processor does not raise an error naming it", f)
    c.ob("P04.found", True if n else None, c.where(f), "multilingual analysed")


# ---------------------------------------------------------------- P05
@spec("P05", least=8)
def P05(c):
    f = c.prog.method("System", "__init__"); n = 0; pl = param("input_pipeline")
    for p in c.method("System", "__init__"):
        if p.raises: continue
        if p.dec(("truthy", pl)) is False: continue
        sets = [(e, ch, fa) for e, ch, fa in p.events("setattr") if e.d["name"] == "next_block"]
        n += 1
        flds = [e for e, ch, fa in p.events("setattr") if e.d["name"] == "reader_pipeline"]
        c.on_path("P05.pipeline", p, (strip_copy(flds[-1].d["value"]) == pl) if flds else None, "the system does not keep its pipeline", f)
        for fl, pa in (("model", "model"), ("output_generator", "output_generator")):
            s = [e for e, ch, fa in p.events("setattr") if e.d["name"] == fl and e.d["base"] == SELF]
            c.on_path("P05.fields", p, (s[-1].d["value"] == param(pa)) if s else None, f"the system does not keep its {pa}", f)
        if not sets: c.on_path("P05.linked", p, False if not p.imprecise else None, "blocks are not connected", f); continue
        links(c, p, f, sets, pl)
    c.ob("P05.found", True if n else None, c.where(f), "System construction analysed")
    f = c.prog.method("Succeed", "process")
    for p in c.method("Succeed", "process"):
        t, a = outcome(p, p.v)
        c.on_path("P05.terminal", p, (t == EMPTY) if t is not None and not p.raises else False, "the terminal block does not succeed", f)
    f = c.prog.method("System", "enter")
    for p in c.method("System", "enter", opaque={"solve", "get_output", "get_current_product"}):
        for e, ch, fa in p.calls("process")[:1]:
            rc = e.d.get("recv"); pipe = attr(SELF, "reader_pipeline")
            c.on_path("P05.enter", p, (rc == T("item", pipe, K(0)) and list(e.d["args"]) == [REQ]) if contains(rc, pipe) else None, "a sentence does not enter at the first block", f)
    # products per processor and request
    pr = param("processor")
    for m, fld, val in (("set_alternative_products", "alternative_products", "alternatives"), ("set_current_product", "current_products", "alternative")):
        f = c.prog.method("SentenceRequest", m); names = f.params[1:]
        for p in c.method("SentenceRequest", m):
            if p.raises: continue
            puts = [e for e, ch, fa in p.events("put") if e.d.get("target") == attr(SELF, fld)]
            oth = [e for e, ch, fa in p.events() if e.kind in ("put", "mutate", "setattr") and e.d.get("target") != attr(SELF, fld)]
            if not puts: c.on_path("P05.stores", p, False if not p.imprecise and not oth else None, f"{m} does not store what it is given", f); continue
            c.on_path("P05.stores", p, len(names) == 2 and puts[-1].d["key"] == param(names[0]) and strip_copy(puts[-1].d["value"]) == param(names[1]), f"{m} does not store what it is given under its processor", f)
    for m, fld, empty in (("get_alternative_products", "alternative_products", T("list")), ("get_current_product", "current_products", NONE)):
        f = c.prog.method("SentenceRequest", m); d = attr(SELF, fld); k = param(f.params[1]); got = T("item", d, k)
        for p in c.method("SentenceRequest", m):
            has = p.dec(("in", k, d))
            if p.raises: c.on_path("P05.reads", p, None if p.v[3] != "explicit" else False, f"{m} raises an error", f); continue
            v = strip_copy(p.v)
            if is_call(v, "get", d): c.on_path("P05.reads", p, v[4][0] == k and (list(v[4][1:]) or [NONE]) == [empty], f"{m} does not read what was stored for the processor", f); continue
            if has is True: c.on_path("P05.reads", p, v == got, f"{m} does not read what was stored for the processor", f)
            elif has is False: c.on_path("P05.reads-nothing", p, p.v == empty, f"{m} returns something for a processor that stored nothing", f)
            else: c.on_path("P05.reads", p, None if v == got or p.imprecise else False, f"{m} does not read what was stored for the processor", f)
    f = c.prog.method("SentenceRequest", "__init__")
    for p in c.method("SentenceRequest", "__init__"):
        for fld in ("current_products", "alternative_products"):
            s = [e for e, ch, fa in p.events("setattr") if e.d["name"] == fld and e.d["base"] == SELF]
            v = p.eng.freeze(p.st, s[-1].d["value"]) if s else None
            c.on_path("P05.own-tables", p, (v == T("dict")) if s else False, "a request does not start with tables of its own", f)
        s = [e for e, ch, fa in p.events("setattr") if e.d["name"] == "text"]
        c.on_path("P05.text", p, (s[-1].d["value"] == param("text")) if s else None, "a request does not keep its text", f)


def links(c, p, f, sets, pl):
    terminal = lambda v: is_t(v, "new") and v[2].split(".")[-1] == "Succeed" or is_t(v, "new") and "Succeed" in str(v[2])
    for e, ch, fa in sets:
        b, v = e.d["base"], e.d["value"]; v = p.eng.freeze(p.st, v)
        if not ch:
            if is_t(b, "item") and b[2] == pl and b[3] == K(-1): c.on_path("P05.linked", p, terminal(v), "the last block is not connected to the terminal block", f)
            else: c.on_path("P05.linked", p, None, f"a connection between blocks is not understood: {show(b)[:80]} -> {show(v)[:80]}", f)
            continue
        if len(ch) != 1: c.on_path("P05.linked", p, None, "blocks are connected in nested loops", f); continue
        L = ch[0][0]; q = Path(p.eng, fstate({**p.facts, **fa}), "return", NONE); i = idx(L); ln = T("len", pl)
        how = covers(p, L, pl)
        if p.eng.loops[L].dom != pl and strip_seq(p.eng.loops[L].dom) == (pl, "part") and not any(not ch2 for _, ch2, _ in sets): c.on_path("P05.linked", p, False, "not every block is connected", f); continue
        if strip_seq(p.eng.loops[L].dom)[1] == "reversed" and strip_seq(p.eng.loops[L].dom)[0] == pl:
            if is_t(v, "phi") and v[2] == L:       # each block remembers the one handled before it
                i0 = p.eng.loops[L].phi_init.get(v[3]); i0 = p.eng.freeze(p.st, i0) if i0 is not None else NONE
                nxt = {a.next.get(v[3]) for a in p.eng.loops[L].alts}
                c.on_path("P05.linked", p, terminal(i0) and nxt == {b}, "a block is not connected to the one that follows it", f)
            elif is_t(v, "item") and v[2] == pl and lin(v[3]) and lin(v[3])[0] == i: c.on_path("P05.linked", p, False, "blocks are connected to the wrong block", f)
            else: c.on_path("P05.linked", p, None, "blocks are connected in reverse", f)
            continue
        if is_t(b, "item") and b[2] == pl:
            pos = b[3]; k = last_test(q, pos, ln)
            if terminal(v): c.on_path("P05.linked", p, None if k is None else k == (1, False), "a block that is not the last is connected to the terminal block", f)
            elif is_t(v, "item") and v[2] == pl:
                if is_t(v[3], "bin") and v[3][2] == "%" and v[3][4] == ln and k is not None and k[0] == 1 and k[1]: v = T("item", pl, v[3][3])     # below the length nothing wraps around
                if v[3] == K(-1) or v[3] == K(0): c.on_path("P05.linked", p, False, "a block is not connected to the one that follows it", f); continue
                c.on_path("P05.linked", p, same_pos(p, v[3], pos, 1), "a block is not connected to the one that follows it", f)
                if k is not None: c.on_path("P05.linked", p, k == (1, True), "the last block is not connected to the terminal block", f)
            elif v in (NONE, SELF): c.on_path("P05.linked", p, False, "a block is connected to nothing", f)
            else: c.on_path("P05.linked", p, None, f"a connection between blocks is not understood: {show(v)[:80]}", f)
        else: c.on_path("P05.linked", p, None, f"a connection between blocks is not understood: {show(b)[:80]}", f)
    # every block gets one
    Ls = {ch[0][0] for e, ch, fa in sets if len(ch) == 1}
    for L in Ls:
        lp = p.eng.loops[L]; al = p.st.loops.get(L, ("all", None))[1]
        for j in range(len(lp.alts)):
            if (al is None or j in al) and not any(ch == ((L, j),) for e, ch, fa in sets): c.on_path("P05.linked", p, False, "a block is not connected", f)
        if lp.exits and any(x.ctl[0] != "raise" for x in lp.exits): c.on_path("P05.linked", p, False, "connecting the blocks stops early", f)


def same_pos(p, a, b, off):
    return lin(a) is not None and lin(b) is not None and lin(a)[0] == lin(b)[0] and lin(a)[1] == lin(b)[1] + off


def last_test(q, pos, ln):
    """(k, True): it is known that pos + k < len; (k, False): pos + k >= len"""
    best = None
    for a, t in q.facts.items():
        if a[0] == "lt":
            l, r = lin(a[1]), lin(a[2]); P = lin(pos)
            if not l or not r or not P: continue
            if l[0] == P[0] and r[0] == ln: k = (l[1] - P[1] - r[1], t)
            elif l[0] == ln and r[0] == P[0]: k = (r[1] - P[1] - l[1] + 1 - 0, not t); k = (r[1] - P[1] - l[1], None)
            else: continue
            if k[1] is None:      # len < pos + k  <=>  pos + (k - 1) >= len
                k = (k[0] - 1, not t) if True else k
            best = k
        elif a[0] == "eq" and t is not None:
            l, r = lin(a[1]), lin(a[2]); P = lin(pos)
            if not l or not r or not P: continue
            if r[0] == P[0]: l, r = r, l
            if l[0] == P[0] and r[0] == ln: best = (l[1] - P[1] - r[1], not t)   # pos + k == len, within the list
    return best


def lin(v):
    """v as (base, constant)"""
    if is_k(v): return (None, kv(v)) if isinstance(kv(v), int) else None
    if is_t(v, "bin") and v[2] in "+-":
        a, b = v[3], v[4]
        if is_k(b) and isinstance(kv(b), int):
            l = lin(a); return l and (l[0], l[1] + (kv(b) if v[2] == "+" else -kv(b)))
        if is_k(a) and isinstance(kv(a), int) and v[2] == "+":
            l = lin(b); return l and (l[0], l[1] + kv(a))
    return (v, 0)
