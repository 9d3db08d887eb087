#!/usr/bin/env python3
"""seed.py DEF.py...: confirms planted bugs and stores them in seeded/.

A definition file sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (python text; `s` is a
session of the driver in a scratch directory, write(name, text) makes a file, check(cond, msg) fails the demo).
"""
import sys, os, json, shutil, subprocess, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, json, subprocess
from vt import *
SEC = 10 ** 9
T = os.environ['DEMO_TMP']
def write(name, text):
    p = os.path.join(T, name)
    open(p, 'wb').write(text if isinstance(text, bytes) else text.encode())
    return p
def check(c, msg=''):
    if not c:
        print('wrong:', msg); sys.exit(1)
def E(lines): return [(dec(t[1]), t[2], dec(t[3]), t[4]) for t in lines if t[0] == 'E']
def state(s): return {dec(t[1]): (t[2], int(t[3])) for t in s.cmd('state') if t[0] == 'S'}
def evs(lines): return {(dec(t[1]), t[2], dec(t[3])): t[4] for t in lines if t[0] == 'V'}
def CLI(): subprocess.check_call([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h', 'build.py'), 'cli'], stdout=subprocess.DEVNULL)
def cli(argv, cmds):
    """exit status and records of the ginga program on a stand-in window system"""
    r = subprocess.run([os.path.join(BUILD, 'bin', 'cli')] + argv, cwd=T, input=''.join(c + '\\n' for c in cmds), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    return r.returncode, [l for l in r.stdout.split('\\n') if l and l != '.']
def session(): return Session(cwd=T, timeout=60)
try:
%s
except (Crash, Hang, Loops) as e:
    print('wrong:', type(e).__name__, e, getattr(e, 'err', '')[-1500:]); sys.exit(1)
print('right')
'''
SCR = '/tmp/seedtree'
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tree():
    shutil.rmtree(SCR, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', SCR])
def demo(d, repo, b):
    return sh('bash', d + '/demo.sh', cwd=repo, env=dict(os.environ, DEMO_BUILD=b))
def main():
    sys.stdout.reconfigure(line_buffering=True)
    tree()
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        sid = g['ID']
        subprocess.check_call(['git', '-C', SCR, 'checkout', '-q', '--', '.'])
        bad = None
        for fn, a, b in g['EDITS']:
            p = os.path.join(SCR, fn); t = open(p).read()
            if t.count(a) != 1: bad = '%s: %d places for %r' % (fn, t.count(a), a[:60]); break
            open(p, 'w').write(t.replace(a, b))
        if bad: print(sid, 'NO', bad); continue
        diff = subprocess.check_output(['git', '-C', SCR, 'diff'], text=True)
        # are the lines original ones?
        for fn, a, b in g['EDITS']:
            bl = sh('git', '-C', '/repo', 'blame', '-s', '--abbrev=10', 'af963e8..HEAD', '--', fn).stdout.split('\n')
        new = []
        cur = fn = None
        import re
        ol = 0
        for l in diff.split('\n'):
            if l.startswith('--- a/'): fn = l[6:]; bl = sh('git', '-C', '/repo', 'blame', '-s', 'af963e8..HEAD', '--', fn).stdout.split('\n')
            elif l.startswith('@@'): ol = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                if not bl[ol - 1].startswith('^'): new.append(l)
                ol += 1
            elif l.startswith(' '): ol += 1
        w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
        shutil.copytree(R + '/tools/seedkit', w, dirs_exist_ok=True)
        h = w + '/h'; os.makedirs(h + '/py')
        for x in ('build.py', 'lsan.supp'): shutil.copy(R + '/vt/' + x, h)
        shutil.copytree(R + '/vt/src', h + '/src'); shutil.copytree(R + '/vt/stubs', h + '/stubs')
        for x in ('vt.py', 'av.py'): shutil.copy(R + '/vt/py/' + x, h + '/py')
        open(w + '/demo.py', 'w').write(PRE % '\n'.join('    ' + l for l in g['DEMO'].strip('\n').split('\n')))
        open(w + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(w + '/meta.json', 'w'), indent=1)
        try:
            r0 = demo(w, '/repo', '/tmp/seedb0')
            r1 = demo(w, SCR, '/tmp/seedb1')
            if r0.returncode != 0: print(sid, 'NO: demo fails on the unchanged tree:', r0.stdout[-600:]); continue
            if r1.returncode == 0: print(sid, 'NO: demo passes with the patch', r1.stdout[-300:]); continue
            if r1.returncode not in (1,): print(sid, 'demo exit', r1.returncode, r1.stdout[-600:]); continue
            print(sid, 'demo:', r1.stdout.strip().split('\n')[-1][:200])
            if not os.environ.get('NOTEST'):
                # official build and tests of the changed tree, shown in the place of /repo in a mount namespace of its own
                o = sh('unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; bash /opt/vp/test.sh /tmp/seed.json' % SCR)
                if '47 passed' not in o.stdout: print(sid, 'NO: tests:', o.stdout[-400:]); continue
            if new: print(sid, 'NOTE: changes lines of our own commits:', len(new), new[:3])
            dst = os.path.join(R, 'seeded', sid)
            shutil.rmtree(dst, ignore_errors=True); shutil.copytree(w, dst)
            print(sid, 'KEPT')
        finally: shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(SCR, ignore_errors=True)
main()
