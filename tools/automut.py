#!/usr/bin/env python3
"""automut.py [-f FILE,...] [-n COUNT] [--seed N] [--cov LCOV_TEXT] [-w WORKERS] [-o OUT]: random small changes (operators, constants, dropped
statements) of the lines of lib/*.cpp that the workloads execute, one at a time, against the checks that concern the file.  Prints one line per
change; survivors must be judged by hand (equivalent, outside every property, or missed).  A development tool: no check uses it."""
import sys, os, re, subprocess, shutil, argparse, random, time, json, hashlib, threading, queue
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {'Event': 'C01 C02 C04 C11', 'Object': 'C04 C07 C01 C05 C14 C20', 'Context': 'C05 C01 C02 C07 C08', 'Document': 'C02 C03 C14 C07 C08', 'Media': 'C04 C08 C07 C01 C24 C20 C16 C25',
       'MediaSettings': 'C08 C07', 'Switch': 'C06 C05 C11', 'Predicate': 'C03 C15', 'Composition': 'C05 C11 C20', 'Formatter': 'C19 C08 C17 C16 C09', 'Ginga': 'C19',
       'Parser': 'C11 C12 C13 C14 C10', 'ParserLua': 'C15', 'Player': 'C16 C17 C18 C08 C24 C25', 'PlayerAnimator': 'C18 C16', 'PlayerImage': 'C17 C20', 'PlayerText': 'C17 C16 C20',
       'PlayerLua': 'C24', 'PlayerRemote': 'C23', 'PlayerSigGen': 'C25', 'PlayerVideo': 'C25', 'WebServices': 'C23', 'aux-ginga': 'C21 C22 C13'}
a = argparse.ArgumentParser(); a.add_argument('-f'); a.add_argument('-n', type=int, default=50); a.add_argument('--seed', type=int, default=1)
a.add_argument('--cov'); a.add_argument('-w', type=int, default=2); a.add_argument('-o', default='/tmp/automut.log'); a.add_argument('-j', default='4')
a = a.parse_args()
rng = random.Random(a.seed)
OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<-])<(?![<=])(?= )', '<='), (r'(?<= )>(?![>=])', '>='), (r'<=', '<'), (r'>=', '>'), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'push_back', 'push_front'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'(?<=\()!(?=\w)', ''), (r'\+=', '-='), (r'\+\+', '--'), (r'"(\w+)"', '"\\1x"'),
       (r'\bSTART\b', 'STOP'), (r'\bSTOP\b', 'ABORT'), (r'\bPAUSED\b', 'OCCURRING'), (r'\bOCCURRING\b', 'SLEEPING'), (r'\bSLEEPING\b', 'PAUSED'), (r'\bwidth\b', 'height'), (r'\bleft\b', 'top'), (r'std::min|MIN', 'MAX'), (r'std::max|MAX', 'MIN'), (r'break;', ';'), (r'continue;', ';')]
def cov():
    """executed lines per file, from llvm-cov show"""
    out, f = {}, None
    for l in open(a.cov, errors='replace'):
        m = re.match(r'^(/\S+\.cpp):$', l)
        if m: f = os.path.basename(m.group(1)); out.setdefault(f, set()); continue
        m = re.match(r'^\s*(\d+)\|\s*([\d.]+[kMGT]?)\|', l)
        if m and f and m.group(2) != '0': out[f].add(int(m.group(1)))
    return out
C = cov() if a.cov else None
def sites():
    S = []
    for b in (a.f.split(',') if a.f else MAP):
        f = 'lib/%s.cpp' % b
        L = open(os.environ.get('AM_REPO', '/repo') + '/' + f).read().split('\n')
        for i, l in enumerate(L):
            s = l.strip()
            if C is not None and (i + 1) not in C.get(b + '.cpp', ()): continue
            if not s or s.startswith(('//', '*', '/*', '#')) or l.endswith('\\') or re.search(r'TRACE|WARNING|ERROR|g_assert|GINGA_TIME_ARGS|DEBUG|FORMAT', s): continue
            c = re.sub(r'//.*', '', l)
            for p, q in OPS:
                for m in re.finditer(p, c):
                    if 'include' in c: continue
                    n = l[:m.start()] + m.expand(q) + l[m.end():]
                    if n != l: S.append((b, f, i, l, n))
            if re.match(r'^[\w>.:\-\[\]()*& ]+\(.*\);$', s) and not s.startswith(('return', 'delete', 'else')): S.append((b, f, i, l, re.match(r'\s*', l).group(0) + ';'))
            if re.match(r'^[\w>.\-\[\]*]+ [+\-*]?= .*;$', s): S.append((b, f, i, l, re.match(r'\s*', l).group(0) + ';'))
            m = re.match(r'^(\s*(?:else )?if \()(?:un)?(?:likely \()?(.*)\)$', c)
            if m and c.count('(') == c.count(')') and 'likely' not in c:
                S.append((b, f, i, l, m.group(1) + 'true || (' + m.group(2) + '))')); S.append((b, f, i, l, m.group(1) + 'false && (' + m.group(2) + '))'))
    return S
S = sites(); rng.shuffle(S)
by = {}
for s in S: by.setdefault(s[0], []).append(s)
pick, fs = [], sorted(by)
# a share per file that grows with the root of its size
w = {f: len(by[f]) ** .5 for f in fs}
while len(pick) < a.n and any(by.values()):
    f = rng.choices(fs, [w[f] if by[f] else 0 for f in fs])[0]
    pick.append(by[f].pop())
lk = threading.Lock(); q = queue.Queue()
for i, p in enumerate(pick): q.put((i, p))
def work(k):
    T, B = '/tmp/am%dtree' % k, '/tmp/am%dbuild' % k
    shutil.rmtree(T, ignore_errors=True); subprocess.check_call(['git', 'clone', '-q', os.environ.get('AM_REPO', '/repo'), T])
    while True:
        try: i, (b, f, ln, l, n) = q.get_nowait()
        except queue.Empty: break
        subprocess.check_call(['git', '-C', T, 'checkout', '-q', '--', '.'])
        L = open(T + '/' + f).read().split('\n'); assert L[ln] == l
        L[ln] = n; open(T + '/' + f, 'w').write('\n'.join(L))
        res, t0 = 'SURVIVED', time.time()
        for c in MAP[b].split():
            e = dict(os.environ, VT_REPO=T, VT_BUILD=B, VERIF_EVIDENCE='/tmp/am%dev' % k)
            r = subprocess.run([sys.executable, R + '/vt/check.py', c, '--seed', '1', '--jobs', a.j], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            v = [x for x in r.stdout.split('\n') if x.startswith('# ') and not x.startswith('# C')]
            if r.returncode == 1: res = 'caught by %s: %s' % (c, v[0][:100] if v else ''); break
            if r.returncode != 0: res = 'nobuild' if 'cannot compile' in r.stdout else 'ERROR %s %s' % (c, r.stdout[-200:]); break
        with lk:
            with open(a.o, 'a') as o: o.write('%s | %s:%d | %s | %s | %d s\n' % (res, f, ln + 1, l.strip()[:90], n.strip()[:90], time.time() - t0))
    shutil.rmtree(T, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(a.w)]
[t.start() for t in ts]; [t.join() for t in ts]
