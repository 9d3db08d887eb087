"""Lockstep monitor: the real engine and the reference interpreter are given the same requests and must show the same trace."""
import json, os, random, re
from vt import *
import model, spec
from gen import NUMV, CUSTV, FOCV, KEYS, Gen
from spec import SEC

TRS = ['start', 'stop', 'pause', 'resume', 'abort']
TICKS = [0, 1, SEC // 100, SEC // 10, SEC // 4, SEC // 2, SEC, 3 * SEC // 2, 3 * SEC] * 3 + [5 * SEC, 9 * SEC + 1, 100 * SEC, 4000 * SEC]

class Mismatch(Exception):
    def __init__(self, what, detail, op=None):
        Exception.__init__(self, '%s: %s' % (what, detail)); self.what, self.detail, self.op = what, detail, op

class Skip(Exception):
    """the document or history is outside the modelled language"""

def norm(lines):
    """E and P lines of the driver in the model's form"""
    out = []
    for t in lines:
        if t[0] == 'E': out.append(('E', dec(t[1]), t[2], dec(t[3]), t[4], t[5], t[6]))
        elif t[0] == 'P': out.append(('P', dec(t[1]), t[2], dec(t[3]) if t[2] == 'start' else None))
    return out

def mnorm(tr):
    return [x if x[0] == 'E' else (x[0], x[1], x[2], x[3] if x[2] == 'start' else None) for x in tr]

def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return i
    return None if len(a) == len(b) else min(len(a), len(b))

class Lock:
    """one presentation in the session's current formatter"""
    def __init__(self, s, stats=None):
        self.s = s
        self.m = None
        self.stats = stats if stats is not None else {}
        self.ops = []
        self.what = None
        self.focus = None
        self.scripts = None
        self.last = {}         # last known state of each event, by object
    def cmp_scripts(self, lines, op): pass
    def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    # -- comparison --
    def cmp_trace(self, lines, op):
        if self.scripts is not None: self.cmp_scripts(lines, op)
        got, exp = norm(lines), mnorm(self.m.trace)
        self.count('trace', len(got))
        if self.m.unordered:
            self.count('unordered')
            got.sort(key=repr); exp.sort(key=repr)
        elif [x for x in exp if x[0] == 'E'] == [x for x in got if x[0] == 'E']:
            # player actions are compared relative to the transitions of their media
            for o in sorted(set(x[1] for x in exp + got if x[0] == 'P')):
                a, b = [x for x in exp if x[1] == o], [x for x in got if x[1] == o]
                if a != b: exp, got = a, b; break
            else: return
        i = first_diff(exp, got)
        if i is not None:
            e = exp[i] if i < len(exp) else None
            g = got[i] if i < len(got) else None
            raise Mismatch('trace', 'after %s: expected %s, observed %s (position %d)' % (op, fmt(e), fmt(g), i), op)
    def cmp_r(self, lines, exp, op):
        for t in reversed(lines):
            if t[0] == 'R':
                if dec(t[1]) != str(exp): raise Mismatch('result', '%s returned %s, expected %s' % (op, dec(t[1]), exp), op)
                return
        raise Mismatch('result', 'no answer to %s' % (op,), op)
    def snap(self, op):
        lines = self.s.cmd('snap')
        st, vals, foc = {}, {}, None
        for t in lines:
            if t[0] == 'S': st[dec(t[1])] = (t[2], int(t[3]), frozenset(tuple([x.split(':')[0], dec(x.split(':', 1)[1].rsplit(':', 1)[0]), x.rsplit(':', 1)[1]]) for x in t[5:]))
            elif t[0] == 'V': vals[(dec(t[1]), dec(t[2]))] = dec(t[3])
            elif t[0] == 'F': foc = (dec(t[1]), sorted(dec(x) for x in t[2:]))
        m = self.m
        if not m.playing:
            return
        exp = m.states()
        if st != exp:
            for k in sorted(set(st) | set(exp)):
                if st.get(k) != exp.get(k):
                    raise Mismatch('state', 'after %s: %s is %s, expected %s' % (op, k, fmts(st.get(k)), fmts(exp.get(k))), op)
        ev = {(o.id, e.id): o.getprop(e.id) for o in m.objs for e in o.events if e.T == 'A' and o.getprop(e.id)}
        if ev != vals:
            for k in sorted(set(ev) | set(vals)):
                if ev.get(k) != vals.get(k):
                    raise Mismatch('value', 'after %s: property %s.%s reads %r, expected %r' % (op, k[0], k[1], vals.get(k, ''), ev.get(k, '')), op)
        ef = (m.settings.getprop('service.currentFocus'), sorted(o.id for o in m.medias if o.occurring() and o.focused()))
        if foc != ef:
            raise Mismatch('focus', 'after %s: focus is %s, expected %s' % (op, foc, ef), op)
    # -- requests --
    def start(self, path):
        self.ops.append(['start'])
        def on(t):
            if t[0] == 'J':
                self.dump = spec.decode(json.loads(' '.join(t[1:])))
                self.m = model.Doc(self.dump)
                try:
                    self.m.begin(); self.m.start()
                except (model.Diverges, model.Diagnosed, RecursionError) as e:
                    self.s.kill()
                    raise Skip(type(e).__name__)
        self.m = None
        try: lines = self.s.cmd('start', path, 1, on=on)
        except Loops: raise Mismatch('endless', 'the start makes the engine loop for ever, which the document does not ask for', 'start')
        self.raw = lines
        r = [t for t in lines if t[0] == 'R'][-1]
        self.err = dec(r[2])
        if self.m is None:
            if dec(r[1]) != '0' : raise Mismatch('result', 'start succeeded without a transition', 'start')
            return False
        self.cmp_trace(lines, 'start')
        if (dec(r[1]) == '1') != self.m.playing: raise Mismatch('result', 'start returned %s, expected %s' % (dec(r[1]), self.m.playing), 'start')
        self.snap('start')
        return True
    def do(self, op):
        """op: list; model first, then the engine"""
        m = self.m
        self.ops.append(op)
        m.begin()
        k = op[0]
        try:
            if k == 'tick': exp = m.tick(op[1])
            elif k == 'key': exp = m.key(op[1], op[2])
            elif k == 'act':
                o = m.byname(op[1])
                e = o.ev(op[2], op[3])
                exp = m.eval1(e, op[4], op[5])
            elif k == 'resize': exp = m.resize()
            elif k == 'stop': exp = m.stop()
            elif k == 'draw': exp = m.draw()
            elif k == 'post': m.byname(op[1]).pl.posts.append(op[3:]); exp = None
            elif k == 'web':
                exp = None
                for o, T, i, tr in op[2]: m.eval1(m.byname(o).ev(T, i), tr, '')
            else: raise ValueError(op)
        except (model.Diverges, model.Diagnosed, RecursionError) as x:
            self.ops.pop()
            raise Skip(type(x).__name__)
        try:
            if k == 'tick': lines = self.s.cmd('tick', 0, op[1], 0)
            elif k == 'key': lines = self.s.cmd('key', op[1], op[2])
            elif k == 'act': lines = self.s.cmd('act', op[1], op[2], op[3], op[4], op[5])
            elif k == 'resize': lines = self.s.cmd('resize', op[1], op[2])
            elif k == 'stop': lines = self.s.cmd('stop')
            elif k == 'draw': lines = self.s.cmd('draw', 64, 64)
            elif k == 'post': lines = self.s.cmd('nclua', *op[2:])
            elif k == 'web': lines = self.s.cmd('http', op[1].encode('latin-1'), op[4])
        except Loops: raise Mismatch('endless', '%s makes the engine loop for ever, which the document does not ask for' % (op,), op)
        self.count('ops'); self.count('op-' + k)
        self.raw = lines
        self.cmp_trace(lines, op)
        if exp is not None: self.cmp_r(lines, int(exp), op)
        if k == 'web': answered(lines, op[3], op)
        self.snap(op)
        for kk, v in m.counts.items(): self.count(kk, v)
        m.counts = {}

def response(lines):
    """(status, headers, body) of the answer to an http command; the status is None if there is none"""
    for t in lines:
        if t[0] == 'H':
            if t[1] != 'resp': return None, {}, ''
            x = dec(t[2])
            m = re.match(r'HTTP/1\.[01] (\d\d\d)[^\r\n]*\r\n', x)
            if not m: return None, {}, ''
            h, _, b = x.partition('\r\n\r\n')
            return int(m.group(1)), {l.split(':', 1)[0].lower(): l.split(':', 1)[1].strip() for l in h.split('\r\n')[1:] if ':' in l}, b
    return None, {}, ''

def answered(lines, want, op):
    st = response(lines)[0]
    if want == 'ok' and st != 200: raise Mismatch('status', 'a valid request is answered with %s: %s' % (st, op), op)
    if want == 'bad' and (st is None or st < 400): raise Mismatch('status', 'an invalid request is answered with %s: %s' % (st, op), op)

def fmt(x):
    if x is None: return 'nothing'
    if x[0] == 'E': return '%s of %s event %s.%s (%s->%s)' % (x[4], spec.TN[x[2]], x[1], x[3], x[5], x[6])
    return 'player of %s: %s %s' % (x[1], x[2], x[3] or '')
SN = {'z': 'sleeping', 'o': 'occurring', 'p': 'paused', None: None}
def fmts(x):
    if x is None: return 'absent'
    return '%s at %d ns %s' % (SN[x[0]], x[1], sorted(x[2]))

class Ops:
    """random requests, chosen looking at the model"""
    W = dict(tick=45, key=12, act=38, resize=2, draw=2, stop=.4)
    def __init__(self, rng, weights=None, roots=.06, trs=None, types='PPPPA', ticks=TICKS, keys=KEYS):
        self.r, self.w = rng, dict(self.W, **(weights or {}))
        self.roots, self.types, self.ticks, self.keys = roots, types, ticks, keys
        self.trs = trs or TRS
    def next(self, m):
        r = self.r
        k = r.choices(list(self.w), list(self.w.values()))[0]
        if k == 'tick': return ['tick', r.choice(self.ticks)]
        if k == 'key': return ['key', r.choice(self.keys), r.random() < .6]
        if k == 'resize': return ['resize', r.choice([160, 320, 640]), r.choice([120, 240, 480])]
        if k in ('draw', 'stop'): return [k]
        T = r.choice(self.types)
        objs = [o for o in m.objs if any(e.T == T for e in o.events)]
        if r.random() > self.roots: objs = [o for o in objs if o is not m.root] or objs
        if T == 'P' and r.random() < .9: objs = [o for o in objs if o is not m.settings] or objs
        if not objs: return ['tick', r.choice(self.ticks)]
        o = r.choice(objs)
        evs = [e for e in o.events if e.T == T]
        if T == 'P' and r.random() < .6: evs = [o.lam]
        e = r.choice(evs)
        name = o.id
        if o.aliases and r.random() < .3: name = r.choice(o.aliases)[0]
        v = ''
        tr = r.choice(self.trs)
        if T == 'A':
            if r.random() < .7: tr = 'start'
            v = r.choice(NUMV.get(e.id, FOCV if e.id == 'service.currentFocus' else CUSTV))
            if o.kind in ('Context',) : v = r.choice(CUSTV)
        if T == 'P' and r.random() < .25: tr = 'start'
        return ['act', name, T, e.id, tr, v]
