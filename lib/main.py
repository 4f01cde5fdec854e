import importlib, os, sys
sys.setrecursionlimit(100000)
pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
mod = importlib.import_module(pid.lower())
sys.exit(mod.run(tier))
