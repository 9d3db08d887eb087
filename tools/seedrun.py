#!/usr/bin/env python3
"""seedrun.py [-p] [SEED...] [-c C01,C02]: which checks catch which planted bugs (default: the check of its property). Works on copies in /tmp."""
import sys, os, json, subprocess, shutil, argparse
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = argparse.ArgumentParser(); a.add_argument('seeds', nargs='*'); a.add_argument('-c'); a.add_argument('--seed', default='1'); a.add_argument('--cases')
a = a.parse_args()
T = '/tmp/runtree'
for s in a.seeds or sorted(os.listdir(R + '/seeded')):
    d = os.path.join(R, 'seeded', s)
    shutil.rmtree(T, ignore_errors=True); subprocess.check_call(['git', 'clone', '-q', '/repo', T])
    if subprocess.run(['git', '-C', T, 'apply', d + '/patch.diff']).returncode: print(s, 'PATCH DOES NOT APPLY'); continue
    p = json.load(open(d + '/meta.json'))['property']
    for c in (a.c.split(',') if a.c else [p]):
        e = dict(os.environ, VT_REPO=T, VT_BUILD='/tmp/runbuild', VERIF_EVIDENCE='/tmp/runev')
        r = subprocess.run([sys.executable, R + '/vt/check.py', c, '--seed', a.seed] + (['--cases', a.cases] if a.cases else []), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('# ') and not l.startswith('# C')]
        print(s, p, c, 'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'ERROR %d %s' % (r.returncode, r.stdout[-300:]), (v[0][:160] if v else ''), flush=True)
shutil.rmtree(T, ignore_errors=True)
