"""Values carried from one call to a later one (memo tables, remembered rows, histories).

A *cell* is a place that outlives a call: a field of a long-lived object, a class attribute, a module
global, a mutable default argument, the table of a functools cache. The cells that the program is
meant to keep state in (STATE) are known; the analysis looks at every other one:

  memo      `cell[key] = value` (or setdefault, or a field that is only written when a test on a cell
            says so) in a function that runs while sentences are processed, and the cell is read
  history   a container that grows while sentences are processed, and that is handed on or tested

A memo returns an old value instead of computing a new one. That is the same value only if the value
is a function of the key. It is *stale* when the backward slice of the value (definitions, arguments,
and through the call graph everything its calls may run) reaches state that changes, or contains an
input that does not occur in the key.
"""
import ast
from .flow import flow_of

# fields whose content changes while the program runs, by design
STATE = dict(relations=("SomeModule",), rules=("InferenceModule",), index=("GrammarRules", "ResultIterator"), states=("Chart",), completed_states=("Chart",), current_products=("SentenceRequest",),
             alternative_products=("SentenceRequest",), stats=("Solver",), number=("VariableGenerator", "ResultIterator"), entries=("Logger",), _d=("OrderedSet",), store=("SimpleDataSource",),
             data_source=("BasicOutputBuffer", "BasicDialogContext", "SimpleMemoryModule"), is_last_test=("Logger",), which_tests=("Logger",), show_products=("Logger",),
             show_products_processors=("Logger",), show_stats=("Logger",), next_block=("ControlBlock",))
LIVE = {"relations", "rules", "index", "store", "number"}
SHORT = ("SentenceRequest", "Logger", "DialogTester", "OrderedSet", "ResultIterator", "ChartState", "Chart")
EXTERNAL = {"execute", "executemany", "fetchall", "fetchone", "select", "select_column", "cursor", "urlopen", "read", "query", "random", "time", "now"}
PURE_EXT = {"urllib.parse.quote"}
GROW = {"append", "add", "extend", "insert", "update", "setdefault", "appendleft", "push"}
CLEAR = {"clear", "pop", "popitem", "remove", "discard"}
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def own(fn):
    """nodes of a function without those of functions inside it"""
    todo = list(ast.iter_child_nodes(fn)); out = []
    while todo:
        n = todo.pop(); out.append(n)
        if isinstance(n, FN + (ast.ClassDef,)) and not isinstance(n, ast.Lambda): continue
        todo.extend(ast.iter_child_nodes(n))
    return out


def is_container(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)): return True
    return isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] in ("dict", "list", "set", "defaultdict", "OrderedDict", "OrderedSet", "deque", "Counter", "WeakKeyDictionary", "WeakValueDictionary")


class Carried:
    def __init__(self, kind, cell, func, line, verdict, msg):
        self.kind = kind; self.cell = cell; self.func = func; self.line = line; self.verdict = verdict; self.msg = msg


class Memo:
    def __init__(self, prog, roots):
        self.prog = prog; self.roots = roots; self._flow = None
        self.found = []; self.examined = 0
        self.funcs = prog.all_functions()
        self.globals = {}
        for m in prog.modules.values():
            self.globals[m.name] = {n for n, b in m.binds.items() if b[0] == "const" and is_container(b[1])}
        self.short = self.short_lived()
        self.setup = self.setup_functions()
        self.facts = {id(f.node): self.scan(f) for f in self.funcs}
        self.judge(); self.defaults(); self.decorated(); self.snapshots()

    @property
    def flow(self):
        if self._flow is None: self._flow = flow_of(self.prog, set(self.roots()))
        return self._flow

    # ------------------------------------------------------------ what lives how long
    def short_lived(self):
        """classes that the package makes only while processing"""
        inside = set(); outside = set()
        for f in self.funcs:
            for n in own(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                    r = self.prog.resolve_expr(n.func, f.module)
                    if r and r[0] == "class": (outside if f.name == "__init__" else inside).add(r[1].qual)
        return {q for q in inside - outside} | {q for q, c in self.prog.classes.items() if c.name in SHORT}

    def setup_functions(self):
        """functions that only __init__ (or other such functions) call: no sentence is processed yet"""
        callers = {}
        for f in self.funcs:
            for n in own(f.node):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if nm: callers.setdefault(nm, set()).add(id(f.node))
        out = {id(f.node) for f in self.funcs if f.name in ("__init__", "__new__")}
        while True:
            new = {id(f.node) for f in self.funcs if id(f.node) not in out and f.name in callers and callers[f.name] <= out and f.parent is None}
            if not new: return out
            out |= new

    # ------------------------------------------------------------ cells
    def cell(self, e, f, alias):
        """the cell an expression denotes (through subscripts), or None"""
        while isinstance(e, ast.Subscript): e = e.value
        if isinstance(e, ast.Name):
            if e.id in alias: return alias[e.id]
            if e.id in self.globals.get(f.module.name, ()) and e.id not in f.params and not self.local(e.id, f): return ("g", f.module.name, e.id)
            return None
        if isinstance(e, ast.Attribute):
            v = e.value
            if isinstance(v, ast.Name):
                if f.cls is not None and f.params and v.id == self.self_of(f) and not f.static: return ("a", f.cls.qual, e.attr)
                r = self.prog.resolve(f.module, v.id)
                if r and r[0] == "class": return ("a", r[1].qual, e.attr)
                if r and r[0] == "module" and e.attr in self.globals.get(r[1].name, ()): return ("g", r[1].name, e.attr)
            if isinstance(v, ast.Call) and ast.unparse(v.func) == "type" or isinstance(v, ast.Attribute) and v.attr == "__class__":
                if f.cls is not None: return ("a", f.cls.qual, e.attr)
        return None

    def self_of(self, f):
        g = f
        while g.parent is not None: g = g.parent
        return g.params[0] if g.params else None

    def local(self, name, f):
        decl = {x for n in own(f.node) if isinstance(n, ast.Global) for x in n.names}
        if name in decl: return False
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in own(f.node))

    def tracked(self, cell):
        if cell is None: return False
        if cell[0] == "g": return True
        c = self.prog.classes.get(cell[1])
        if cell[2] in STATE:
            homes = STATE[cell[2]]
            if c is not None and any(x.name in homes for x in c.mro()): return False
            if not any(x.name in homes and self.stores(x, cell[2]) for x in self.prog.classes.values()): return False        # the field lives in another class now
        return not (c is None or c.qual in self.short or any(x.name in SHORT for x in c.mro()))

    def stores(self, c, attr):
        return attr in c.attrs or attr in c.ann or any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for m in c.methods.values() for n in ast.walk(m.node))

    def container(self, cell):
        """the cell holds a list, dict or set of its own"""
        if cell[0] == "g": return True
        c = self.prog.classes[cell[1]]; a = cell[2]
        for k in c.mro() + self.prog.subclasses(c):
            if a in k.attrs and is_container(k.attrs[a]): return True
            x = k.ann.get(a)
            for m in k.methods.values():
                for n in own(m.node):
                    t = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
                    for y in t:
                        if isinstance(y, ast.Attribute) and y.attr == a and isinstance(y.value, ast.Name) and m.params and y.value.id == m.params[0]:
                            if n.value is not None and is_container(n.value): return True
                            if isinstance(n, ast.AnnAssign): x = x or n.annotation
            if x is not None and ast.unparse(x).split("[")[0].split(".")[-1].lower() in ("list", "dict", "set", "defaultdict", "orderedset"): return True
        return False

    def scan(self, f):
        """writes and reads of cells in one function"""
        nodes = own(f.node); alias = {}
        for n in nodes:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Attribute, ast.Name)):
                c = self.cell(n.value, f, {})
                if self.tracked(c) and n.targets[0].id not in f.params: alias[n.targets[0].id] = c
        W = []; R = []; skip = set()
        for n in nodes:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in [y for x in ts for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x])]:
                    if isinstance(t, ast.Name) and not any(isinstance(g, ast.Global) and t.id in g.names for g in nodes): continue
                    c = self.cell(t, f, alias)
                    if not self.tracked(c): continue
                    if n.value is None: continue
                    keys = []; e = t
                    while isinstance(e, ast.Subscript): keys.append(e.slice); e = e.value
                    skip.add(id(e))
                    W.append(dict(cell=c, how="item" if keys else "bind", keys=keys, value=n.value, node=n, aug=isinstance(n, ast.AugAssign)))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW | CLEAR:
                c = self.cell(n.func.value, f, alias)
                if not self.tracked(c) or not self.container(c): continue
                keys = []; e = n.func.value
                while isinstance(e, ast.Subscript): keys.append(e.slice); e = e.value
                skip.add(id(e))
                m = n.func.attr
                if m in CLEAR: W.append(dict(cell=c, how="clear", keys=[], value=None, node=n, aug=False))
                elif m == "setdefault" and len(n.args) == 2:
                    W.append(dict(cell=c, how="item", keys=[n.args[0]] + keys, value=n.args[1], node=n, aug=False)); R.append((c, n))
                else: W.append(dict(cell=c, how="grow", keys=keys, value=n.args[-1] if n.args else None, node=n, aug=False))
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    c = self.cell(t, f, alias)
                    if self.tracked(c): W.append(dict(cell=c, how="clear", keys=[], value=None, node=n, aug=False))
        for n in nodes:
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load) and id(n) not in skip:
                c = self.cell(n, f, alias)
                if self.tracked(c): R.append((c, n))
        return W, R, alias

    def family(self, cell):
        if cell[0] != "a": return {cell}
        c = self.prog.classes.get(cell[1])
        return {("a", x.qual, cell[2]) for x in c.mro()} | {("a", x.qual, cell[2]) for x in self.prog.subclasses(c)}

    # ------------------------------------------------------------ judging
    def judge(self):
        cells = {}
        for f in self.funcs:
            W, R, alias = self.facts[id(f.node)]
            for w in W:
                if id(f.node) in self.setup and w["how"] != "grow" and w["how"] != "item": continue
                cells.setdefault(w["cell"], [[], []])[0].append((f, w))
            for c, n in R: cells.setdefault(c, [[], []])[1].append((f, n))
        for cell in sorted(cells):
            fam = self.family(cell)
            writes = [x for c in fam for x in cells.get(c, [[], []])[0] if id(x[0].node) not in self.setup]
            reads = [x for c in fam for x in cells.get(c, [[], []])[1]]
            if not writes: continue
            self.examined += 1
            if not reads: continue
            cleared = any(w["how"] == "clear" and not w["keys"] or w["how"] == "bind" and (is_container(w["value"]) and not ast.dump(w["value"]).count("Name(") or isinstance(w["value"], ast.Constant) and w["value"].value is None) for f, w in writes)
            for f, w in writes:
                if (f.cls.qual if f.cls else None, w["cell"]) and w["cell"] != cell: continue
                if w["how"] == "clear": continue
                self.one(cell, f, w, reads, cleared)

    def one(self, cell, f, w, reads, cleared):
        what = f"{cell[1].split('.')[-1]}.{cell[2]}"
        if w["how"] == "bind":
            if is_container(w["value"]) and not any(isinstance(n, ast.Name) for n in ast.walk(w["value"]) if not isinstance(n, ast.Name) or n.id not in ("dict", "list", "set", "defaultdict")): return
            if isinstance(w["value"], ast.Constant): return
            guards = self.guards(f, w["node"])
            alias = self.facts[id(f.node)][2]
            on = [g for g in guards if any(self.tracked(self.cell(n, f, alias)) and self.filled(self.cell(n, f, alias)) for n in ast.walk(g) if isinstance(n, (ast.Attribute, ast.Name)))]
            if not on:
                if any(n is not w["node"] and f2 is f and not self.after(f, w["node"], n) for f2, n in reads) and not w["aug"]:
                    self.add("state", what, f, w, None, "keeps a value for a later call")
                return
            keys = on
        elif w["how"] == "grow":
            if w["keys"]: keys = w["keys"]
            else:
                self.history(what, cell, f, w, reads, cleared); return
        else: keys = w["keys"]
        if w["aug"]: return
        # memo
        v = self.slice([w["value"]], f, cell)
        k = self.slice(keys, f, cell)
        why = self.changing(v)
        if why:
            self.add("memo", what, f, w, None if cleared else False, f"remembers a value that depends on {why}: a later call gets the old value"); return
        names = {p.split(".")[0] for p in k[0]}
        missing = sorted(p for p in v[0] if not any(p == q or p.startswith(q + ".") for q in k[0]))
        gone = [p for p in missing if p.split(".")[0] not in names and p.split(".")[0] != self.self_of(f) and not self.carries_no_data(f, p)]
        if gone:
            self.add("memo", what, f, w, None if cleared else False, f"remembers a value under a key in which {gone[0]} does not occur, although the value is made from it"); return
        if missing: self.add("memo", what, f, w, None, "remembers a value under a key that holds a part of what the value is made from")
        else: self.add("memo", what, f, w, True, "remembers a value that is a function of its key")

    def carries_no_data(self, f, p):
        a = f.ann.get(p.split(".")[0])
        return a is not None and "Logger" in ast.unparse(a)

    def filled(self, cell):
        for f in self.funcs:
            if id(f.node) in self.setup: continue
            if any(w["cell"] in self.family(cell) for w in self.facts[id(f.node)][0]): return True
        return False

    def history(self, what, cell, f, w, reads, cleared):
        uses = []
        for f2, n in reads:
            if n is w["node"] or id(f2.node) in self.setup: continue
            if f2.name.startswith(("log", "get_stat", "__str", "__repr")): continue
            uses.append((f2, n))
        if not uses: return
        # the growth must not be a plain record: its content decides something or is handed on
        for f2, n in uses:
            par = parents(f2.node)
            p = par.get(id(n)); q = n
            while p is not None and isinstance(p, (ast.Compare, ast.UnaryOp, ast.BoolOp, ast.Subscript)): q, p = p, par.get(id(p))
            tested = isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is q or isinstance(p, ast.comprehension) and q in p.ifs
            handed = isinstance(p, ast.Call) and q in p.args and not ast.unparse(p.func).startswith(("len", "str", "print"))
            looped = isinstance(p, (ast.For, ast.comprehension)) and p.iter is q
            if (tested or handed or looped) and self.runs(f2):
                self.add("history", what, f, w, None if cleared else False, f"grows with every call and is {'tested' if tested else 'used'} at line {n.lineno} of {f2.qual}: what happens depends on earlier calls"); return
        self.add("history", what, f, w, None, "grows with every call")

    def runs(self, f): return id(f.node) not in self.setup

    def guards(self, f, node):
        par = parents(f.node); out = []; n = node
        while True:
            p = par.get(id(n))
            if p is None or p is f.node: return out + self.early(f, node)
            if isinstance(p, (ast.If, ast.While, ast.IfExp)) and n is not p.test: out.append(p.test)
            n = p

    def early(self, f, node):
        """tests of `if .. : return` statements before the node, in the blocks around it"""
        par = parents(f.node); out = []; n = node
        while n is not f.node and n is not None:
            p = par.get(id(n))
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and n in b:
                    for s in b[:b.index(n)]:
                        if isinstance(s, ast.If) and any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for x in s.body): out.append(s.test)
            n = p
        return out

    def after(self, f, a, b): return getattr(b, "lineno", 0) > a.lineno or getattr(b, "lineno", 0) == a.lineno

    # ------------------------------------------------------------ slices
    def slice(self, exprs, f, cell):
        """(inputs as dotted paths, calls, function-valued attribute calls) the expressions are made from"""
        alias = self.facts[id(f.node)][2] if hasattr(self, "facts") else {}
        defs = {}
        for n in own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets: self.bind(defs, t, n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None: self.bind(defs, n.target, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)): self.bind(defs, n.target, n.iter)
            elif isinstance(n, ast.comprehension): self.bind(defs, n.target, n.iter)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None: self.bind(defs, n.optional_vars, n.context_expr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW:
                r = n.func.value
                while isinstance(r, (ast.Subscript, ast.Attribute)): r = r.value
                if isinstance(r, ast.Name):
                    for a in n.args: defs.setdefault(r.id, []).append(a)
        inputs = set(); calls = []; reads = set(); seen = set(); todo = list(exprs)
        allp = set(f.params) | set(f.kwonly) | ({f.vararg} if f.vararg else set()) | ({f.kwarg} if f.kwarg else set())
        g = f.parent
        while g is not None: allp |= set(g.params); g = g.parent
        while todo:
            e = todo.pop()
            if id(e) in seen: continue
            seen.add(id(e))
            if isinstance(e, FN): todo.append(e.body if isinstance(e, ast.Lambda) else e); continue
            if isinstance(e, (ast.Attribute, ast.Name)):
                c = self.cell(e, f, alias)
                if c is not None and self.tracked(c) and c == cell: continue
                path = dotted(e)
                if path is not None:
                    head = path.split(".")[0]
                    if isinstance(e, ast.Attribute): reads.update(path.split(".")[1:])
                    for d in defs.get(head, []): todo.append(d)
                    if head in allp: inputs.add(path)
                    continue
                reads.add(e.attr); todo.append(e.value); continue
            if isinstance(e, ast.Call):
                calls.append(e)
                if isinstance(e.func, ast.Attribute):
                    todo.append(e.func.value)
                    for x in e.args: todo.append(x)
                    for x in e.keywords: todo.append(x.value)
                    continue
                for x in e.args: todo.append(x)
                for x in e.keywords: todo.append(x.value)
                continue
            todo.extend(x for x in ast.iter_child_nodes(e) if not isinstance(x, (ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)))
        return inputs, calls, reads

    def bind(self, defs, t, v):
        if isinstance(t, ast.Name): defs.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: self.bind(defs, x, v)
        elif isinstance(t, ast.Starred): self.bind(defs, t.value, v)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            r = t
            while isinstance(r, (ast.Subscript, ast.Attribute)): r = r.value
            if isinstance(r, ast.Name) and isinstance(t, ast.Subscript): defs.setdefault(r.id, []).append(v)

    def changing(self, sl):
        """state that changes and that the slice reaches"""
        inputs, calls, reads = sl
        r = reads & LIVE
        if r: return f"the field {min(r)}"
        F = self.flow; seen = set(); todo = []
        def step(calls):
            for e in calls:
                for kind, what in sorted(F.targets.get(id(e), ()), key=str):
                    if kind == "f":
                        if what not in seen: seen.add(what); todo.append(what)
                    elif kind == "u":
                        last = what.split(".")[-1]
                        if last not in ("sem", "exec", "log", "boost"): return f"what {what}() answers"
                    elif kind in ("m", "x") and what.split(".")[-1] in EXTERNAL: return f"what {what}() answers"
            return None
        w = step(calls)
        if w: return w
        while todo:
            k = todo.pop(); f = F.funcs.get(k)
            if f is None or f.cls is not None and (f.cls.name == "Logger" or f.name in ("__str__", "__repr__", "__init__", "__hash__", "__eq__")): continue
            ns = own(f.node)
            for n in ns:
                if isinstance(n, ast.Attribute) and n.attr in LIVE and isinstance(n.ctx, ast.Load): return f"the field {n.attr} (read in {f.qual})"
            w = step([n for n in ns if isinstance(n, ast.Call)])
            if w: return w + f" (called in {f.qual})"
        return None

    # ------------------------------------------------------------ snapshots
    def snapshots(self):
        """fields that __init__ fills with a copy of what changes later, and that are read afterwards"""
        gives = set()
        for f in self.funcs:
            rs = [n.value for n in own(f.node) if isinstance(n, ast.Return)]
            if rs and all(isinstance(r, ast.Attribute) and r.attr in LIVE - {"number"} for r in rs): gives.add(f.name)
        def live(e):
            if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load): return e.attr in LIVE - {"number"}
            return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in gives
        def copied(e):
            """the expression has the content of a live container, not the container"""
            for n in ast.walk(e):
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "items", "values", "keys") and live(n.func.value): return n
                    if isinstance(n.func, (ast.Name, ast.Attribute)) and ast.unparse(n.func).split(".")[-1] in ("dict", "list", "set", "tuple", "frozenset", "sorted", "OrderedSet", "copy", "deepcopy", "ChainMap") and ast.unparse(n.func).split(".")[-1] != "ChainMap" and any(live(a) for a in n.args): return n
                elif isinstance(n, ast.comprehension) and live(n.iter): return n.iter
                elif isinstance(n, (ast.Dict, ast.List, ast.Set, ast.Tuple)):
                    for k, v in zip(n.keys, n.values) if isinstance(n, ast.Dict) else [(0, x.value) for x in n.elts if isinstance(x, ast.Starred)]:
                        if (k is None or k == 0) and live(v): return n
            return None
        for f in self.funcs:
            if id(f.node) not in self.setup: continue
            for w in self.facts[id(f.node)][0]:
                if w["value"] is None or w["how"] == "clear": continue
                fam = self.family(w["cell"])
                self.examined += 1
                hit = self.reaching(w["value"], f, copied, live)
                if hit is None: continue
                reads = [(g, n) for g in self.funcs if id(g.node) not in self.setup for c, n in self.facts[id(g.node)][1] if c in fam]
                if not reads: continue
                later = any(w2["cell"] in fam for g in self.funcs if id(g.node) not in self.setup for w2 in self.facts[id(g.node)][0])
                what = f"{w['cell'][1].split('.')[-1]}.{w['cell'][2]}"
                g, n = reads[0]
                self.found.append(Carried("snapshot", what, g, n.lineno, None if later else False, f"{what} holds what {ast.unparse(hit)} contained when the object was made (line {w['node'].lineno} of {f.qual}): what is added later is not seen"))

    def reaching(self, value, f, copied, live):
        h = copied(value)
        if h is not None: return h
        defs = {}
        for n in own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets: self.bind(defs, t, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)): self.bind(defs, n.target, n.iter)
            elif isinstance(n, ast.comprehension): self.bind(defs, n.target, n.iter)
        todo = [n.id for n in ast.walk(value) if isinstance(n, ast.Name)]; seen = set()
        loops = {id(n.iter) for n in own(f.node) if isinstance(n, (ast.For, ast.comprehension))}
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for d in defs.get(x, []):
                h = copied(d)
                if h is not None: return h
                if id(d) in loops and live(d): return d
                todo += [n.id for n in ast.walk(d) if isinstance(n, ast.Name)]
        return None

    # ------------------------------------------------------------ default arguments and caches
    def defaults(self):
        for f in self.funcs:
            for p, d in f.defaults.items():
                if not is_container(d): continue
                self.examined += 1
                ns = own(f.node)
                grows = [n for n in ns if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and isinstance(n.func.value, ast.Name) and n.func.value.id == p]
                items = [n for n in ns if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == p for t in n.targets)]
                if not grows and not items: continue
                if any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in ns): continue
                if not self.omitted(f, p): continue
                node = (grows or items)[0]; w = dict(cell=("d", f.qual, p), node=node)
                if items:
                    v = self.slice([items[0].value], f, None); k = self.slice([t.slice for t in items[0].targets if isinstance(t, ast.Subscript)], f, None)
                    why = self.changing(v)
                    gone = sorted(q for q in v[0] if q.split(".")[0] not in {x.split(".")[0] for x in k[0]} and q.split(".")[0] not in (p, self.self_of(f)))
                    if why or gone: self.add("memo", f"default argument {p}", f, w, False, "the default is made once and remembers values " + (f"that depend on {why}" if why else f"under a key without {gone[0]}"))
                    else: self.add("memo", f"default argument {p}", f, w, True, "remembers a value that is a function of its key")
                else: self.add("history", f"default argument {p}", f, w, False, "the default is made once and grows with every call that leaves the argument out")

    def omitted(self, f, p):
        i = f.params.index(p) if p in f.params else None
        for g in self.funcs:
            for n in own(g.node):
                if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == f.name or isinstance(n.func, ast.Name) and n.func.id == f.name):
                    if any(k.arg in (p, None) for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args): continue
                    k = len(n.args) + (1 if f.cls is not None and not f.static and isinstance(n.func, ast.Attribute) else 0)
                    if i is None or k <= i: return True
        return f.cls is not None and f.name == "__init__"

    def decorated(self):
        for f in self.funcs:
            for d in f.decorators:
                if d.split("(")[0].split(".")[-1] not in ("cache", "lru_cache", "cached_property", "memoize", "cached"): continue
                self.examined += 1
                calls = [n for n in own(f.node) if isinstance(n, ast.Call)]
                reads = {n.attr for n in own(f.node) if isinstance(n, ast.Attribute)}
                why = self.changing((set(), calls, reads))
                w = dict(cell=("c", f.qual, d), node=f.node)
                if why: self.add("memo", "@" + d, f, w, False, f"remembers a value that depends on {why}: a later call gets the old value")
                else: self.add("memo", "@" + d, f, w, True, "remembers a value that is a function of its arguments")

    def add(self, kind, what, f, w, verdict, msg): self.found.append(Carried(kind, what, f, w["node"].lineno, verdict, f"{what} {msg}"))


def dotted(e):
    out = []
    while isinstance(e, ast.Attribute): out.append(e.attr); e = e.value
    if not isinstance(e, ast.Name): return None
    return ".".join([e.id] + out[::-1])


def parents(fn):
    p = getattr(fn, "_par", None)
    if p is None:
        p = {}
        for n in ast.walk(fn):
            for c in ast.iter_child_nodes(n): p[id(c)] = n
        fn._par = p
    return p


def memo_of(prog, roots):
    m = getattr(prog, "_memo", None)
    if m is None: m = prog._memo = Memo(prog, roots)
    return m
