"""Anchoring of names.

The specifications name classes, methods, attributes and parameters of the program. A name is not
behaviour: a change that only renames things must be judged like the code before it. names.json
lists, for the tree the specifications were written against, which names exist and what they stand
for (a bag of the words in the definition). When a name of that list is gone and its place (same
class, same module) holds a name that is not in the list and whose definition is alike, the new name
is read as the old one: the syntax tree is rewritten to the old name before the analysis starts.
Nothing else of the list is used; what the code does is always taken from the current source.
"""
import ast, json, os
from collections import Counter

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def words(node, skip=()):
    out = Counter()
    for n in ast.walk(node):
        w = None
        if isinstance(n, ast.Name): w = n.id
        elif isinstance(n, ast.Attribute): w = "." + n.attr
        elif isinstance(n, ast.Constant): w = repr(n.value)[:40]
        elif isinstance(n, ast.keyword) and n.arg: w = n.arg + "="
        elif isinstance(n, ast.arg): w = n.arg
        elif isinstance(n, (ast.operator, ast.cmpop, ast.boolop, ast.unaryop)): w = type(n).__name__
        elif isinstance(n, (ast.For, ast.While, ast.If, ast.Return, ast.Raise, ast.Try, ast.ListComp, ast.Subscript)): w = "<" + type(n).__name__ + ">"
        if w and w.lstrip(".") not in skip: out[w] += 1
    return out


def alike(a, b):
    a, b = Counter(a), Counter(b); t = sum(a.values()) + sum(b.values())
    return 2 * sum((a & b).values()) / t if t else 1.0


def body_of(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant): b = b[1:]
    return b


def table(trees):
    """{rel: tree} -> the names of a program"""
    T = dict(classes={}, funcs={}, attrs={}, consts={}, words=Counter())
    for rel, tree in trees.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute): T["words"][n.attr] += 1
            elif isinstance(n, ast.Name): T["words"][n.id] += 1
            elif isinstance(n, FN + (ast.ClassDef,)): T["words"][n.name] += 1
            elif isinstance(n, (ast.arg, ast.keyword)) and n.arg: T["words"][n.arg] += 1
        for s in tree.body:
            if isinstance(s, ast.ClassDef):
                T["classes"][rel + ":" + s.name] = words(s, {s.name})
                A = {}
                for b in s.body:
                    if isinstance(b, FN): func(T, rel + ":" + s.name, b)
                    elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name): A.setdefault(b.target.id, Counter()).update({"ann": 1, **words(b.annotation)})
                for b in s.body:
                    if not isinstance(b, FN) or not b.args.args: continue
                    me = b.args.args[0].arg
                    for n in ast.walk(b):
                        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                            if isinstance(n.ctx, ast.Store): A.setdefault(n.attr, Counter())["set:" + b.name] += 1
                            elif n.attr in A: A[n.attr]["get:" + b.name] += 1
                        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me: A.setdefault(t.attr, Counter()).update(words(n.value, {t.attr}))
                T["attrs"][rel + ":" + s.name] = A
            elif isinstance(s, FN): func(T, rel + ":", s)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name): T["consts"].setdefault(rel, {})[t.id] = ast.dump(s.value)[:300]
    return T


def func(T, key, fn):
    a = fn.args
    w = Counter()
    for s in body_of(fn): w.update(words(s, {fn.name}))
    T["funcs"].setdefault(key, {})[fn.name] = dict(words=w, params=[x.arg for x in a.posonlyargs + a.args + a.kwonlyargs])


def pairs(lost, gained, sim):
    """{old: new}; each the best match of the other"""
    out = {}
    if not lost or not gained: return out
    for o in lost:
        n = max(gained, key=lambda x: sim(o, x))
        if max(lost, key=lambda x: sim(x, n)) != o: continue
        if sim(o, n) >= (0.35 if len(lost) == len(gained) == 1 else 0.6): out[o] = n
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, attrs=None, names=None, defs=None, kw=None): self.attrs = attrs or {}; self.names = names or {}; self.defs = defs or {}; self.kw = kw or {}
    def visit_Attribute(self, n):
        self.generic_visit(n); n.attr = self.attrs.get(n.attr, n.attr); return n
    def visit_Name(self, n):
        n.id = self.names.get(n.id, n.id); return n
    def visit_FunctionDef(self, n):
        self.generic_visit(n); n.name = self.defs.get(n.name, n.name); return n
    def visit_ClassDef(self, n):
        self.generic_visit(n); n.name = self.defs.get(n.name, n.name); return n
    def visit_alias(self, n):
        if n.name in self.names and n.asname is None: n.name = self.names[n.name]
        elif n.name in self.names: n.name = self.names[n.name]
        return n
    def visit_Constant(self, n):
        return n


def inside_self(trees, classes, ren):
    """rename self.new -> self.old inside these classes"""
    for rel, tree in trees.items():
        for s in tree.body:
            if isinstance(s, ast.ClassDef) and s.name in classes:
                for b in ast.walk(s):
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id in ("self", "cls", s.name): b.attr = ren.get(b.attr, b.attr)
                    elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Name) and b.value.func.id == "super": b.attr = ren.get(b.attr, b.attr)


def normalise(trees):
    """rewrite the trees in place; -> list of (old name, new name, where)"""
    if not os.path.exists(FILE): return []
    base = json.load(open(FILE, encoding="utf-8")); known = set(base["words"]); log = []
    cur = table(trees)
    # modules that moved: take definitions where they are now
    def rehome(kind):
        out = {}
        for k, v in base[kind].items():
            rel, _, c = k.partition(":")
            if k in cur[kind] or not c: out[k] = v; continue
            other = [x for x in cur[kind] if x.partition(":")[2] == c and x not in base[kind]]
            out[other[0] if len(other) == 1 else k] = v
        return out
    # classes
    for rel in {k.partition(":")[0] for k in list(base["classes"])}:
        lost = [k for k in base["classes"] if k.startswith(rel + ":") and k not in cur["classes"] and not any(x.partition(":")[2] == k.partition(":")[2] for x in cur["classes"])]
        if not lost: continue
        gained = [k for k in cur["classes"] if k not in base["classes"] and k.partition(":")[2] not in known and (k.startswith(rel + ":") or rel not in trees)]
        for o, n in pairs(lost, gained, lambda a, b: alike(base["classes"][a], cur["classes"][b])).items():
            old, new = o.partition(":")[2], n.partition(":")[2]; log.append((old, new, rel))
            r = Rename(names={new: old}, defs={new: old}, attrs={new: old})
            for t in trees.values(): r.visit(t)
    if log: cur = table(trees)
    def still(key, o, n):
        """the old name is still meant somewhere: not a renaming"""
        cls = key.partition(":")[2]
        if cls:
            fam = family(trees, cls)
            up = {c for c in fam if c != cls and cls in below(trees, c)}
            for k, fs in cur["funcs"].items():
                if k.partition(":")[2] in up and o in fs: return True
            for t in trees.values():
                for c in t.body:
                    if isinstance(c, ast.ClassDef) and c.name in fam:
                        if any(isinstance(x, ast.Attribute) and x.attr == o and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls") for x in ast.walk(c)): return True
        elif cur["words"][o] and any(isinstance(x, ast.Name) and x.id == o for x in ast.walk(trees[key.partition(":")[0]])): return True
        return base["words"].get(o, 0) > 1 and (cur["words"][n] < 2 or cur["words"][o] >= base["words"][o])
    # functions and methods
    bf = rehome("funcs"); todo = []; done = []
    for key, fs in bf.items():
        if key not in cur["funcs"]: continue
        lost = [x for x in fs if x not in cur["funcs"][key]]; gained = [x for x in cur["funcs"][key] if x not in fs]
        for o, n in pairs(lost, gained, lambda a, b: alike(fs[a]["words"], cur["funcs"][key][b]["words"])).items():
            if not still(key, o, n): todo.append((key, o, n)); log.append((o, n, key))
    for key, o, n in todo:
        rel, _, cls = key.partition(":")
        if n not in known:
            r = Rename(attrs={n: o}, defs={n: o}, names={n: o})
            for t in trees.values(): r.visit(t)
        else:
            for s in trees[rel].body:
                for b in (s.body if cls and isinstance(s, ast.ClassDef) and s.name == cls else [s] if not cls else []):
                    if isinstance(b, FN) and b.name == n: b.name = o
            if cls: inside_self(trees, family(trees, cls), {n: o})
            else: Rename(names={n: o}).visit(trees[rel])
    if todo: cur = table(trees)
    # attributes
    ba = rehome("attrs"); ren = []
    for key, at in ba.items():
        if key not in cur["attrs"]: continue
        was = lambda t, x: any(w.startswith("set:") for w in t.get(x, ()))
        lost = [x for x in at if x not in cur["attrs"][key] or was(at, x) and not was(cur["attrs"][key], x)]; gained = [x for x in cur["attrs"][key] if x not in at]
        for o, n in pairs(lost, gained, lambda a, b: alike(at[a], cur["attrs"][key][b])).items():
            if not still(key, o, n): ren.append((key, o, n))
    for key, o, n in ren:
        log.append((o, n, key)); cls = key.partition(":")[2]
        if n not in known:
            r = Rename(attrs={n: o})
            for t in trees.values(): r.visit(t)
        else: inside_self(trees, family(trees, cls), {n: o})
        for t in trees.values():
            for s in t.body:
                if isinstance(s, ast.ClassDef) and s.name == cls:
                    for b in s.body:
                        if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.target.id == n: b.target.id = o
            for x in ast.walk(t):
                if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == cls or isinstance(x.func, ast.Attribute) and x.func.attr == cls) and "__init__" not in cur["funcs"].get(key, {}):
                    for k in x.keywords:
                        if k.arg == n: k.arg = o
    # constants of modules
    for rel, cs in base["consts"].items():
        if rel not in cur["consts"] and rel not in trees: continue
        now = cur["consts"].get(rel, {}); lost = [x for x in cs if x not in now]; gained = [x for x in now if x not in cs and x not in known]
        for o in lost:
            m = [x for x in gained if now[x] == cs[o]]
            if len(m) == 1 and sum(cs[x] == cs[o] for x in lost) == 1:
                log.append((o, m[0], rel)); r = Rename(names={m[0]: o}, attrs={m[0]: o})
                for t in trees.values(): r.visit(t)
    # parameters
    cur = table(trees)
    for key, fs in bf.items():
        rel, _, cls = key.partition(":")
        for name, f in fs.items():
            now = cur["funcs"].get(key, {}).get(name)
            if now is None or len(now["params"]) != len(f["params"]): continue
            m = {n: o for o, n in zip(f["params"], now["params"]) if o != n}
            if not m or set(m) & set(f["params"]) or set(m.values()) & set(now["params"]): continue
            for s in trees[rel].body:
                for b in (s.body if cls and isinstance(s, ast.ClassDef) and s.name == cls else [s] if not cls else []):
                    if isinstance(b, FN) and b.name == name:
                        used = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}
                        if used & set(m.values()):       # a local has the old name: give it another
                            Rename(names={x: x + "__local" for x in used & set(m.values())}).visit(b)
                        Rename(names=m).visit(b)
                        for x in ast.walk(b.args):
                            if isinstance(x, ast.arg): x.arg = m.get(x.arg, x.arg)
                        log += [(o, n, key + "." + name) for n, o in m.items()]
            call = cls if name == "__init__" else name
            for t in trees.values():
                for x in ast.walk(t):
                    if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == call or isinstance(x.func, ast.Attribute) and x.func.attr == call):
                        for k in x.keywords:
                            if k.arg in m: k.arg = m[k.arg]
    return log


def below(trees, cls):
    bases = {}
    for t in trees.values():
        for s in t.body:
            if isinstance(s, ast.ClassDef): bases[s.name] = {ast.unparse(b).split(".")[-1] for b in s.bases}
    out = {cls}; n = 0
    while n != len(out):
        n = len(out)
        for c, bs in bases.items():
            if bs & out: out.add(c)
    return out


def family(trees, cls):
    """the class, its bases and its subclasses, by name"""
    bases = {}
    for t in trees.values():
        for s in t.body:
            if isinstance(s, ast.ClassDef): bases[s.name] = {ast.unparse(b).split(".")[-1] for b in s.bases}
    out = {cls}; n = 0
    while n != len(out):
        n = len(out)
        for c, bs in bases.items():
            if bs & out: out.add(c)
    up = {cls}; n = 0
    while n != len(up):
        n = len(up)
        for c in list(up): up |= bases.get(c, set()) & set(bases)
    return out | up
