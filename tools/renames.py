"""Renaming methods, functions, attributes: every check must stay quiet.

usage: renames.py [ROUNDS]    each round renames one definition per file (methods, functions, attributes
whose name occurs nowhere else as a definition), in all of the package, and runs all specs"""
import ast, os, sys, re, shutil, subprocess, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
files = [os.path.join(d, x) for d, _, fs in os.walk("/repo/richard") for x in fs if x.endswith(".py")]
text = {f: open(f).read() for f in files}
other = "".join(open(os.path.join(d, x), errors="ignore").read() for d, _, fs in os.walk("/repo/tests") for x in fs if x.endswith((".py", ".csv", ".pl", ".txt")))
defs = {}
for f in files:
    t = ast.parse(text[f])
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef) and not n.name.startswith("__"): defs.setdefault(n.name, set()).add(f)
        if isinstance(n, ast.ClassDef):
            for m in ast.walk(n):
                if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and m.value.id == "self" and isinstance(m.ctx, ast.Store): defs.setdefault(m.attr, set()).add(f)
BI = set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(str)) | {"match", "search", "cursor", "execute", "commit", "close", "fetchall", "write", "read", "fetchone"}
alltext = "".join(text.values())
cand = {}
for n, fs in defs.items():
    if len(fs) != 1 or n in BI or re.search(r"\b%s\b" % n, other): continue
    if re.search(r"""['"]%s['"]""" % n, alltext): continue
    cand.setdefault(next(iter(fs)), []).append(n)
def one(k):
    ren = [ns[k % len(ns)] for f, ns in sorted(cand.items()) if k < len(ns)]
    d = f"/tmp/rnm.{os.getpid()}.{k}"; shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__", "tests"))
    try:
        pat = re.compile(r"\b(%s)\b" % "|".join(ren))
        for f in files:
            s = pat.sub(lambda m: "the_" + m.group(1) + "_x", text[f])
            if s != text[f]: open(d + f[len("/repo"):], "w").write(s)
        r = subprocess.run(["python3", here + "/check.py", "ALL", "--repo", d], capture_output=True, text=True, cwd=here)
        bad = [l.strip()[:230] for l in r.stdout.splitlines() if "VIOLATION" in l or "BROKEN" in l]
        lines = [l.rstrip()[:250] for l in r.stdout.splitlines() if l.startswith("  ")]
        return f"round {k}: {len(ren)} renamed {ren}\n" + "\n".join("   " + x for x in bad + lines) + (r.stderr[-300:] if r.returncode not in (0, 1) else "")
    finally: shutil.rmtree(d)
n = int(sys.argv[1]) if len(sys.argv) > 1 else max(len(v) for v in cand.values())
print(sum(len(v) for v in cand.values()), "candidates")
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, range(n)): print(r, flush=True)
