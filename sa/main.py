"""Command line: decide one property on the current source of /repo."""
import argparse, importlib, json, os, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from .program import Program, AnalysisBroken, Missing
from . import spec as S


def load_specs():
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith("specs_") and f.endswith(".py"): importlib.import_module("sa." + f[:-3])


def known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("open: property=" + pid + " "):
                rest = l[len("open: property=" + pid + " "):]
                key, _, what = rest.partition(" ")
                out.append((key.removeprefix("key="), what))
    return out


def decide(pid, prog=None, tier="quick", repo="/repo"):
    f, least = S.SPECS[pid]
    c = S.Check(prog or Program(repo), pid, tier)
    from .specs_memo import stale_for
    try: c.guard(pid + ".spec", "sa/specs", f, c)
    except Missing as x:
        c.ob(pid + ".anchor", None, "", f"{x}: the obligations about it and those after it are not decided"); stale_for(c); return c
    stale_for(c)
    if any(o.key == pid + ".spec" for o in c.obs): return c
    if len(c.obs) < max(1, least // 4) and not any(o.verdict == S.VIOLATED for o in c.obs): raise AnalysisBroken(f"only {len(c.obs)} obligations found, expected at least {least}")
    return c


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    load_specs()
    ids = sorted(S.SPECS) if a.property == "ALL" else [a.property]
    rc = 0; prog = None
    for pid in ids:
        t = time.time()
        try:
            prog = prog or Program(a.repo)
            c = decide(pid, prog, a.tier)
        except (AnalysisBroken, SyntaxError) as x:
            print(f"BROKEN property={pid} {x}"); rc = max(rc, 2); continue
        rc = max(rc, report(c, pid, a, time.time() - t))
    return rc


def report(c, pid, a, wall):
    kn = known(pid)
    bad = [o for o in c.obs if o.verdict == S.VIOLATED]; und = [o for o in c.obs if o.verdict == S.UNKNOWN]
    seen = set(); fresh = []
    for o in bad:
        m = next((w for k, w in kn if k == o.key), None)
        if m is None: fresh.append(o)
        elif o.key not in seen:
            seen.add(o.key); print(f"KNOWN-FINDING: property={pid} {m} [{o.where}]")
    if os.path.abspath(a.repo) == "/repo":
        ev = os.path.join(ROOT, "evidence"); os.makedirs(ev, exist_ok=True)
    else:
        ev = os.path.join("/tmp", "sa_evidence"); os.makedirs(ev, exist_ok=True)
    kinds = {}
    for o in c.obs: kinds.setdefault(o.key, [0, 0, 0])[[S.HOLDS, S.UNKNOWN, S.VIOLATED].index(o.verdict)] += 1
    doc = dict(property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", wall_s=round(wall, 3),
               coverage=dict(explanation="static obligations decided on the abstract paths / dataflow facts of the current source; nothing is executed",
                             obligations=len(c.obs), decided_holds=sum(o.verdict == S.HOLDS for o in c.obs), undecided=len(und), violated=len(bad), renamed=[f"{o} is now called {n} ({w})" for o, n, w in c.prog.renamed], known=len(bad) - len(fresh),
                             abstract_paths=c.paths, loops_summarised=c.loops, functions_analysed=sorted(c.functions), sites=c.callsites,
                             rules={k: dict(holds=v[0], undecided=v[1], violated=v[2]) for k, v in sorted(kinds.items())},
                             undecided_list=[dict(rule=o.key, where=o.where, why=o.msg) for o in und][:50], notes=c.notes))
    if fresh:
        rp = os.path.join(ev, f"{pid}.violation.txt")
        with open(rp, "w", encoding="utf-8") as f:
            for o in fresh:
                f.write(f"rule {o.key}\nat   {o.where}\n{o.msg}\n" + "".join("    " + str(x) + "\n" for x in (o.detail or [])) + "\n")
        doc["coverage"]["violations"] = [dict(rule=o.key, where=o.where, what=o.msg) for o in fresh]
    json.dump(doc, open(os.path.join(ev, f"{pid}.json"), "w", encoding="utf-8"), indent=1)
    if a.v or und:
        for o in (c.obs if a.v else und):
            if a.v or o.verdict == S.UNKNOWN: print(f"  {o.verdict:9} {o.key}  {o.where}  {o.msg}")
    if fresh:
        for o in fresh[:20]: print(f"  {o.where}: {o.msg}  [{o.key}]")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} obligations={len(c.obs)} undecided={len(und)} known={len(bad)} paths={c.paths} wall={wall:.1f}s")
    return 0
