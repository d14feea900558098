"""profile one path: prof.py MODULE CASE [seconds]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from symx import runner
runner.prepare()
import importlib, cProfile, pstats, signal
mod = importlib.import_module('harness.' + sys.argv[1])
case = [c for c in mod.cases('quick') + mod.cases('thorough') if c['name'] == sys.argv[2]][0]
pr = cProfile.Profile()
signal.alarm(0)
def stop(*a):
    pr.disable()
    pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
    import traceback
    traceback.print_stack(a[1], limit=25) if a else None
    os._exit(0)
signal.signal(signal.SIGALRM, stop)
signal.alarm(int(sys.argv[3]) if len(sys.argv) > 3 else 30)
pr.enable()
r = runner.run_path(case, ())
pr.disable()
print(r.status, r.detail)
pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
