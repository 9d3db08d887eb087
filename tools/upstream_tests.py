#!/usr/bin/env python3
"""Builds every /repo/tests/*.cpp against the harness objects and runs it (aid for judging repairs)."""
import sys, os, glob, subprocess
sys.path.insert(0, '/verif/vt')
import build
from concurrent.futures import ThreadPoolExecutor
b = build.Builder(); v = 'plain'
pch = b.pch(v)
with ThreadPoolExecutor(8) as ex:
    objs = list(ex.map(lambda s: b.obj(s, v, pch), b.libsources() + [build.VT + '/src/stubs.cpp', build.VT + '/src/shim.cpp']))
out = '/tmp/upt'; os.makedirs(out, exist_ok=True)
def one(src):
    n = os.path.basename(src)[:-4]
    r = subprocess.run([b.cc] + b.flags(v) + ['-UNDEBUG'] + b.inc + [src] + objs + ['-o', out + '/' + n] + b.libs, stderr=subprocess.PIPE, text=True)
    if r.returncode: return n, 'BUILD ' + r.stderr[-300:]
    try: p = subprocess.run([out + '/' + n], cwd=build.REPO + '/tests', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    except subprocess.TimeoutExpired: return n, 'TIMEOUT'
    t = p.stdout.decode('utf8', 'replace')
    return n, 'ok' if p.returncode == 0 else 'FAIL %d %s' % (p.returncode, t[-200:])
with ThreadPoolExecutor(8) as ex:
    for n, r in ex.map(one, sorted(glob.glob(build.REPO + '/tests/*.cpp'))): print(n, r)
