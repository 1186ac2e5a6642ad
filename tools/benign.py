"""Behaviour-preserving edits: every check must stay quiet on them.

usage: benign.py CORPUS.py [name…]      (CORPUS defines E = [(name, file under richard/, [(old, new), …])])
Applies each edit to a scratch copy of /repo, runs the stable tests there, then all specs, and
reports violations / broken checks / undecided obligations."""
import sys, os, subprocess, shutil, runpy, json, re
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = runpy.run_path(sys.argv[1])["E"]
only = sys.argv[2:]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
base = {}

def tests(d):
    o = d + ".xml"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d, PYTHONHASHSEED="0")
    subprocess.run(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --rootdir={d} --import-mode=importlib -o python_files='*_test.py test.py test_*.py' -W ignore -o junit_family=xunit2 --junitxml={o} tests",
        cwd=d, env=env, shell=True, capture_output=True, timeout=600)
    ok = {tc.get("classname") + "::" + tc.get("name") for tc in ET.parse(o).iter("testcase")
          if not any(ch.tag in ("failure", "error", "skipped") for ch in tc)}
    os.remove(o)
    return stable - ok

def one(a):
    i, (name, f, pairs) = a
    d = f"/tmp/bn.{os.getpid()}.{i}"
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    try:
        cur = f
        for x in pairs:
            if len(x) == 3: cur, old, new = x
            else: old, new = x
            p = f"{d}/richard/{cur}"; s = open(p, encoding="utf-8").read() if os.path.exists(p) else ""
            if old is None: s += new
            elif isinstance(old, tuple): s = s.replace(old[0], new) if old[0] in s else s      # (text,): every occurrence
            elif s.count(old) != 1: return f"EDIT {name}: {s.count(old)}x {old[:60]!r}"
            else: s = s.replace(old, new)
            open(p, "w", encoding="utf-8").write(s)
        miss = tests(d)
        if miss: return f"TESTS {name}: {sorted(miss)[:3]}"
        r = subprocess.run(["python3", here + "/check.py", "ALL", "--repo", d], capture_output=True, text=True, cwd=here)
        bad = []
        for l in r.stdout.splitlines():
            if "VIOLATION" in l or "BROKEN" in l or "Broken" in l: bad.append(l.strip()[:200])
            m = re.match(r"(?:OK |HOLDS )?\s*(\S+).*undecided=(\d+)", l)
        und = sum(int(m.group(1)) for m in re.finditer(r"undecided=(\d+)", r.stdout))
        why = [l.strip()[:260] for l in r.stdout.splitlines() if l.startswith("  ")][:8]
        if r.returncode not in (0, 1): bad.append(f"rc={r.returncode} " + r.stderr.strip()[-200:])
        return ("ALARM " if bad else "quiet ") + name + f" undecided={und}" + "".join("\n      " + b for b in bad + (why if bad or und else []))
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, [x for x in enumerate(E) if not only or x[1][0] in only]): print(r, flush=True)
