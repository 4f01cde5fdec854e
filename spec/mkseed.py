"""mkseed.py ID PROPERTY: (re)creates seeded/ID from the uncommitted change of the scratch tree given by $TREE
(default: /tmp/seedtree) and the demonstration on stdin (python using zk.py)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid, prop, needs, breaks = sys.argv[1:5]
tree = os.environ.get("TREE", "/tmp/seedtree")
d = os.path.join(ROOT, "seeded", bid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(os.path.join(d, "runner"))
diff = subprocess.run(["git", "-C", tree, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
assert diff.strip()
open(os.path.join(d, "patch.diff"), "w").write(diff)
demo = sys.stdin.read()
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
if os.environ.get("PLAIN"):  # demo is a shell script of its own
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    shutil.rmtree(os.path.join(d, "runner"))
else:
    for f in ("Cargo.toml", "Cargo.lock", "src", ".cargo"):
        s = os.path.join(ROOT, "engine", f)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, "runner", f))
    shutil.rmtree(os.path.join(d, "runner", ".cargo"))
    shutil.copy(os.path.join(ROOT, "spec", "seedlib", "zk.py"), d)
    open(os.path.join(d, "demo.py"), "w").write("from zk import *\n" + demo)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
print(bid, len(diff.splitlines()), "diff lines")
