"""Common runner: case generation in worker processes, verdicts, replays, known findings, evidence.

A check module (checks/cXX.py) defines
  ID, RULE, QUICK, THOROUGH (case counts), case(w, i, rng) and optionally setup(w), finish(w), main(R).
`w` is the worker context below; case() raises Violation (or lets Mismatch / Crash / Hang escape) when the
property is broken, raises Skip when the case is out of scope, and records what it saw with w.count / w.seen.
"""
import os, sys, json, time, random, tempfile, shutil, traceback, hashlib, collections, base64, multiprocessing as mp, importlib, signal
from vt import *
from lock import Mismatch, Skip

KNOWN = os.path.join(ROOT, 'known-findings.txt')
PNG1 = base64.b64decode('iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg==')

class Violation(Exception):
    def __init__(self, key, detail='', data=None):
        Exception.__init__(self, '%s: %s' % (key, detail)); self.key, self.detail, self.data = key, detail, data

class HarnessError(Exception):
    pass

def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known:\s+property=(\S+)\s+key=(.*?)\s+::\s*(.*)$', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

class Worker:
    def __init__(self, mod, seed, tier, wid=0):
        self.mod, self.seed, self.tier, self.wid = mod, seed, tier, wid
        self.stats = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.hist = []                    # cases run in the current session
        self.s = None
        self.dir = tempfile.mkdtemp(prefix='vt-%s-' % mod.ID, dir=os.environ.get('VT_TMP'))
        self.extra = {}
        self.note = None                  # what the current case is, for replays
        self.files()
        if hasattr(mod, 'setup'): mod.setup(self)
    def files(self):
        open(os.path.join(self.dir, 't.txt'), 'w').write('hello')
        open(os.path.join(self.dir, 'i.png'), 'wb').write(PNG1)
        open(os.path.join(self.dir, 's.lua'), 'w').write('-- script\n')
    def count(self, k, n=1): self.stats[k] += n
    def seen(self, *sig):
        """signature of a non-trivial case"""
        self.sigs.add(hashlib.md5(repr(sig).encode()).digest()[:8])
    def sample(self, x):
        if len(self.samples) < 3: self.samples.append(x)
    def session(self, fresh=False, **kw):
        if fresh or self.s is None or self.s.p.poll() is not None or getattr(self, 'nsess', 0) >= getattr(self.mod, 'PER_SESSION', 200):
            self.end()
            self.s = Session(cwd=self.dir, timeout=getattr(self.mod, 'TIMEOUT', 40), **kw)
            self.nsess = 0; self.hist = self.hist[-1:]
        self.nsess += 1
        return self.s
    def drop(self):
        if self.s is not None:
            self.s.kill(); self.s.__exit__(); self.s = None
    def end(self):
        """ends the session normally (its end is checked, too)"""
        if self.s is not None:
            try:
                if self.s.p.poll() is None:
                    err = self.s.close()
                    if CRIT.search(err):
                        l = [x for x in err.split('\n') if CRIT.search(x)]
                        raise Violation('critical ' + re.sub(r'\(.*?:\d+\)|[\d:.]+: ', '', l[0])[:200], '\n'.join(l[:5]))
            finally:
                self.s.__exit__(); self.s = None
    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, 'wb') as f: f.write(text if isinstance(text, bytes) else text.encode('utf-8', 'surrogateescape'))
        return p
    def close(self):
        self.drop()
        shutil.rmtree(self.dir, ignore_errors=True)
    def rng(self, i): return random.Random('%s-%s-%s' % (self.mod.ID, self.seed, i))
    def run(self, i):
        """-> None or a finding dict"""
        self.note = None
        def f(key, detail, data=None, kind='mismatch'):
            return dict(case=i, key=key, detail=detail, kind=kind, data=data if data is not None else self.note, hist=list(self.hist))
        try:
            self.hist.append(i)
            self.mod.case(self, i, self.rng(i))
            self.stats['cases'] += 1
        except Skip as e:
            self.stats['skipped ' + str(e)] += 1
        except Loops:
            self.stats['skipped loops'] += 1; self.drop()
        except Violation as e:
            r = f(e.key, e.detail, e.data); self.drop(); return r
        except Mismatch as e:
            r = f(e.what, e.detail); self.drop(); return r
        except Crash as e:
            r = f('crash ' + e.sig, e.report(), kind='crash-' + e.kind); self.drop(); return r
        except Hang:
            r = f('hang', 'no answer within the time limit', kind='hang'); self.drop(); return r
        return None

def work(modname, seed, tier, wid, q_in, q_out, stop=None):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        mod = importlib.import_module('checks.' + modname)
        w = Worker(mod, seed, tier, wid)
        try:
            bad = 0
            while True:
                chunk = q_in.get()
                if chunk is None: break
                for i in range(*chunk):
                    if stop is not None and stop.value: break
                    r = w.run(i)
                    if r:
                        q_out.put(('finding', r)); bad += 1
                        if bad >= getattr(mod, 'MAXBAD', 6): break
                if bad >= getattr(mod, 'MAXBAD', 6):
                    q_out.put(('note', 'worker %d stopped after %d findings' % (wid, bad))); break
            try:
                if hasattr(mod, 'finish'): mod.finish(w)
                w.end()
            except Crash as e:
                q_out.put(('finding', dict(case=w.hist[-1] if w.hist else -1, key='crash ' + e.sig, detail=e.report(), kind='crash-' + e.kind, data=None, hist=list(w.hist))))
            except Violation as e:
                q_out.put(('finding', dict(case=w.hist[-1] if w.hist else -1, key=e.key, detail=e.detail, kind='end', data=e.data, hist=list(w.hist))))
        finally:
            w.close()
        q_out.put(('done', dict(stats=dict(w.stats), sigs=w.sigs, samples=w.samples, extra=w.extra)))
    except BaseException:
        try: at = 'case %s\n' % w.hist[-1:]
        except NameError: at = ''
        q_out.put(('error', at + traceback.format_exc()[-3000:]))

class Recheck(Exception): pass

def confirm(modname, seed, tier, f):
    """re-runs a finding alone in a fresh process, then with the cases before it; -> finding or None"""
    mod = importlib.import_module('checks.' + modname)
    for cases in ([f['case']], f['hist']):
        if not cases: continue
        w = Worker(mod, seed, tier)
        try:
            last = None
            for c in cases:
                last = w.run(c)
                if last: break
            if last is None and f['kind'] in ('end', 'crash-leak') or (last is None and len(cases) > 1):
                try:
                    if hasattr(mod, 'finish'): mod.finish(w)
                    w.end()
                except Crash as e:
                    last = dict(f, key='crash ' + e.sig, detail=e.report())
                except Violation as e:
                    last = dict(f, key=e.key, detail=e.detail)
            if last:
                last['cases'] = cases
                return last
        finally:
            w.close()
    return None

def confirm_proc(args, q):
    try: q.put(confirm(*args))
    except BaseException: q.put(('error', traceback.format_exc()[-2000:]))

def main(modname, tier, seed, replay=None, jobs=None, cases=None):
    mod = importlib.import_module('checks.' + modname)
    pid = mod.ID
    t0 = time.time()
    if replay: return do_replay(mod, modname, replay)
    n = cases or (mod.THOROUGH if tier == 'thorough' else mod.QUICK)
    jobs = jobs or getattr(mod, 'JOBS', 0) or min(8, os.cpu_count() or 4)
    chunk = max(1, min(getattr(mod, 'CHUNK', 40), n // (jobs * 4) or 1))
    ctx = mp.get_context('fork')
    qi, qo = ctx.Queue(), ctx.Queue()
    for a in range(0, n, chunk): qi.put((a, min(n, a + chunk)))
    for _ in range(jobs): qi.put(None)
    stop = ctx.Value('i', 0, lock=False)
    limit = float(os.environ.get('VT_LIMIT') or (480 if tier == 'quick' else 6 * 3600))
    ps = [ctx.Process(target=work, args=(modname, seed, tier, k, qi, qo, stop), daemon=True) for k in range(jobs)]
    for p in ps: p.start()
    findings, errors, notes = [], [], []
    stats, sigs, samples, extra = collections.Counter(), set(), [], {}
    left = len(ps)
    import queue
    dead = 0
    while left:
        if not stop.value and (time.time() - t0 > limit or len(findings) >= 10):
            stop.value = 1; tstop = time.time()
            if len(findings) < 10: notes.append('stopped at the time limit of %d s' % limit)
        if stop.value and time.time() - tstop > 70:
            notes.append('%d workers did not stop and were ended' % left)
            for p in ps: p.kill()
            break
        try:
            k, v = qo.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                dead += 1
                if dead > 2: errors.append('a worker ended without a report'); break
            continue
        if k == 'finding': findings.append(v)
        elif k == 'note': notes.append(v)
        elif k == 'error': errors.append(v); left -= 1
        else:
            left -= 1
            stats.update(v['stats']); sigs |= v['sigs']; samples += v['samples']
            for a, b in v['extra'].items():
                if isinstance(b, set): extra.setdefault(a, set()).update(b)
                elif isinstance(b, list): extra.setdefault(a, []).extend(b)
                else: extra[a] = extra.get(a, 0) + b
    for p in ps: p.join(20 if not stop.value else 1)
    tconf = time.time() + (240 if tier == 'quick' else 3600)
    # -- verdict --
    kn = known(pid)
    reported, unconfirmed, seenkeys, knownhits = [], [], collections.Counter(), {}
    findings.sort(key=lambda f: (f['case'], f['key']))
    for f in findings:
        if seenkeys[f['key']] >= 2 or len(reported) >= 4: continue
        seenkeys[f['key']] += 1
        q = ctx.Queue()
        pr = ctx.Process(target=confirm_proc, args=((modname, seed, tier, f), q), daemon=True)
        pr.start()
        try: c = q.get(timeout=max(1, min(400, tconf - time.time())))
        except queue.Empty: c = None
        pr.kill()
        if isinstance(c, tuple): errors.append(c[1]); continue
        if c is None and f['kind'] in ('crash-asan', 'crash-ubsan', 'crash-exception', 'crash-assert'): c = dict(f, cases=f['hist'])
        if c is None:
            unconfirmed.append(dict(key=f['key'], detail=f['detail'][:400], case=f['case']))
            rd = os.path.join(BUILD, 'replay'); os.makedirs(rd, exist_ok=True)
            json.dump(dict(f, module=modname, tier=tier, seed=seed), open(os.path.join(rd, 'inconclusive-%s-%d-%d.json' % (pid, seed, len(unconfirmed))), 'w'), indent=1, default=str)
            continue
        hit = [d for k, d in kn if k in c['key'] or k in c['detail']]
        if hit:
            knownhits[hit[0]] = c; continue
        reported.append(c)
    for r in getattr(mod, 'KNOWN_CASES', []):
        d = r()
        if d: knownhits[d] = None
    min_nontrivial = getattr(mod, 'MIN', 10)
    if not reported and not errors and len(sigs) < min_nontrivial and not findings:
        errors.append('only %d non-trivial cases were observed' % len(sigs))
    cov = dict(evaluations=int(stats.get('cases', 0)), distinct_nontrivial=len(sigs), rule=mod.RULE,
               samples=samples[:5] or ['none'], observed={k: v for k, v in sorted(stats.items())},
               inconclusive=unconfirmed[:10], notes=notes)
    for k, v in extra.items(): cov[k] = sorted(v) if isinstance(v, set) else v
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              wall_s=round(time.time() - t0, 2))
    if hasattr(mod, 'evidence'): mod.evidence(ev)
    EVD = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(EVD, exist_ok=True)
    json.dump(ev, open(os.path.join(EVD, pid + '.json'), 'w'), indent=1, default=str)
    for k, d in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    rd = os.path.join(BUILD, 'replay'); os.makedirs(rd, exist_ok=True)
    for n_, c in enumerate(reported):
        path = os.path.join(rd, '%s-%d-%d.json' % (pid, seed, n_))
        json.dump(dict(property=pid, module=modname, tier=tier, seed=seed, cases=c['cases'], key=c['key'], detail=c['detail'], data=c['data']),
                  open(path, 'w'), indent=1, default=str)
        print('# %s: %s' % (c['key'][:200], re.sub(r'\s+', ' ', c['detail'])[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    print('# %s %s: %d cases, %d distinct non-trivial, %d findings, %.0f s' % (pid, tier, stats.get('cases', 0), len(sigs), len(reported), time.time() - t0))
    if unconfirmed: print('# inconclusive: %d' % len(unconfirmed), [(u['key'][:80], u['case']) for u in unconfirmed[:3]])
    if reported: return 1
    if errors:
        for e in errors: sys.stderr.write(e + '\n')
        return 3
    return 0

def do_replay(mod, modname, path):
    d = json.load(open(path))
    w = Worker(mod, d['seed'], d['tier'])
    try:
        r = None
        for c in d['cases']:
            r = w.run(c)
            if r: break
        if r is None:
            try:
                if hasattr(mod, 'finish'): mod.finish(w)
                w.end()
            except (Crash, Violation) as e: r = dict(key=str(e), detail='')
        if r:
            print('%s\n%s' % (r['key'], r['detail'][-4000:]))
            if r.get('data'): print(json.dumps(r['data'], indent=1, default=str)[:20000])
            print('VIOLATION property=%s replay=%s' % (mod.ID, path)); return 1
        print('the replay does not fail'); return 0
    finally: w.close()
