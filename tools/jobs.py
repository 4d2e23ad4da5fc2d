"""Development aid: run only the jobs of a property whose name contains a text: jobs.py ID TEXT [tier]."""
import importlib, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent; sys.path.insert(0, str(V))
P = importlib.import_module("vf.props." + sys.argv[1].lower()).P
P.jobs = [j for j in P.jobs if sys.argv[2] in j.name]; P.extra = []
print(P.check(sys.argv[1], sys.argv[3] if len(sys.argv) > 3 else "quick", time.time()))
