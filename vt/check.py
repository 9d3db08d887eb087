#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N] [--cases N]"""
import os, sys, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'py'))
a = argparse.ArgumentParser()
a.add_argument('id'); a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
a.add_argument('--replay'); a.add_argument('--jobs', type=int); a.add_argument('--cases', type=int)
a = a.parse_args()
import subprocess
r = subprocess.run([sys.executable, os.path.join(HERE, 'build.py'), 'cli' if a.id == 'C26' else 'driver'], stdout=subprocess.DEVNULL)
if r.returncode: sys.exit(4)
import run
try:
    rc = run.main(a.id.lower(), 'thorough' if a.tier == 'thorough' else 'quick', a.seed, a.replay, a.jobs, a.cases)
except SystemExit: raise
except BaseException:
    import traceback; traceback.print_exc(); rc = 5
sys.stdout.flush()
os._exit(rc)
