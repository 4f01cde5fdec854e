"""plant.py ID PROPERTY NEEDS BREAKS [FILE OLD NEW]...: edits the scratch tree, runs the property's check on /repo with
the change applied and, when it reports a row, makes the row the demonstration of seeded/ID."""
import json, os, re, subprocess, sys
bid, prop, needs, breaks, *ed = sys.argv[1:]
T, V = "/tmp/seedtree", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, **k)
sh(f"git -C {T} checkout -q .")
for f, a, b in zip(ed[::3], ed[1::3], ed[2::3]):
    p = f"{T}/evm_arithmetization/src/{f}"
    s = open(p).read()
    n = None
    m = re.match(r"(\d+)@", a)
    if m:
        n, a = int(m[1]), a[m.end():]
    assert s.count(a) == (n or 1), (f, a, s.count(a))
    open(p, "w").write(s.replace(a, b))
sh(f"git -C {T} diff > /tmp/plant.diff", check=True)
sh("git -C /repo apply /tmp/plant.diff", check=True)
try:
    r = sh(f"cd {V} && timeout 900 ./check {prop} quick", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
finally:
    sh("git -C /repo checkout -q .")
print(r.stdout[-2500:], r.returncode)
m = re.search(r"replay=(\S+)", r.stdout)
if r.returncode != 1 or not m:
    sys.exit("not caught")
c = json.load(open(os.path.join(V, m[1])))
case = c["replay"]
if "lv" not in case and "rows" not in case:
    sys.exit("no row: " + str(list(case)))
if "rows" in case:
    rows = [r for r in case["rows"] if r]
    pairs = list(zip(rows, rows[1:])) + ([(rows[-1], rows[0])] if case.get("last") else [])
    case["pairs"] = [[a, b, int(case.get("first", 0) and i == 0), int(case.get("last", 0) and i == len(pairs) - 1)] for i, (a, b) in enumerate(pairs)]
else:
    case["pairs"] = [[case["lv"], case["nv"], case.get("first", 0), case.get("last", 0)]]
demo = f"""# {breaks}: this row must be rejected
import json, os
c = json.load(open(os.path.join(HERE, "row.json")))
r = Runner()
expect("forged rows rejected", all(r.rows(c["table"], lv, nv, first, last, 0 if last else 1) for lv, nv, first, last in c["pairs"]), False)
"""
subprocess.run([sys.executable, f"{V}/spec/mkseed.py", bid, prop, needs, breaks], input=demo, text=True, check=True)
json.dump({"table": case["table"], "pairs": case["pairs"]}, open(f"{V}/seeded/{bid}/row.json", "w"))
sh(f"git -C {T} checkout -q .")
