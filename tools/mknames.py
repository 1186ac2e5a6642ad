"""Write sa/names.json from /repo (run when the specifications are revised against a new tree)."""
import ast, json, os, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import names
warnings.simplefilter("ignore")
trees = {}
for d, dirs, files in os.walk("/repo/richard"):
    for f in files:
        if f.endswith(".py"):
            p = os.path.join(d, f); trees[os.path.relpath(p, "/repo")] = ast.parse(open(p, encoding="utf-8").read())
t = names.table(trees)
json.dump(t, open(names.FILE, "w"), indent=0, sort_keys=True)
