"""Profile one configuration in-process: prof.py P04 'n4'"""
import sys, os, cProfile, pstats
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import run, load
load.install()
sys.setrecursionlimit(3000)
prop = run.load_prop(sys.argv[1])
cfg = [c for c in prop.CONFIGS if c["name"] == sys.argv[2]][0]
mode = sys.argv[3] if len(sys.argv) > 3 else "sym"
pr = cProfile.Profile()
pr.enable()
r = run.work(sys.argv[1], cfg, mode, [], float(os.environ.get("SLICE", "5")))
pr.disable()
print({k: r[k] for k in ("status", "cand", "stats", "err", "outcomes")})
pstats.Stats(pr).sort_stats("tottime").print_stats(int(os.environ.get("TOP", "25")))
