#!/usr/bin/env python3
"""mutsweep.py MODULE [-n NAME,...] [-c CHECKS] [--seed N]: applies the small changes listed in tools/mutants/MODULE.py one by one to a copy
of the tree and runs the checks of the properties they concern; prints which are caught.  A development tool: no check uses it."""
import sys, os, subprocess, shutil, argparse, importlib, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/tools/mutants')
a = argparse.ArgumentParser(); a.add_argument('mod'); a.add_argument('-n'); a.add_argument('-c'); a.add_argument('--seed', default='1'); a.add_argument('-t', default='/tmp/mut'); a.add_argument('--all', action='store_true')
a = a.parse_args()
T, B = a.t + 'tree', a.t + 'build'
shutil.rmtree(T, ignore_errors=True); subprocess.check_call(['git', 'clone', '-q', '/repo', T])
for n, props, f, old, new in importlib.import_module(a.mod).M_:
    if a.n and n not in a.n.split(','): continue
    subprocess.check_call(['git', '-C', T, 'checkout', '-q', '--', '.'])
    t = open(T + '/' + f).read()
    if t.count(old) != 1: print(n, 'NO PLACE', t.count(old), flush=True); continue
    open(T + '/' + f, 'w').write(t.replace(old, new))
    for c in (a.c.split(',') if a.c else props.split()):
        e = dict(os.environ, VT_REPO=T, VT_BUILD=B, VERIF_EVIDENCE=a.t + 'ev')
        t0 = time.time()
        r = subprocess.run([sys.executable, R + '/vt/check.py', c, '--seed', a.seed] + (['--jobs', os.environ['J']] if 'J' in os.environ else []), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('# ') and not l.startswith('# C')]
        print(n, c, 'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR %d %s' % (r.returncode, r.stdout[-300:]), '%d s' % (time.time() - t0), (v[0][:150] if v else ''), flush=True)
shutil.rmtree(T, ignore_errors=True)
