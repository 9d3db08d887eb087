from engine import *
from checks import c17
import mut, copy
ID = 'C20'
QUICK, THOROUGH = 1200, 50000
PER_SESSION = 80
RULE = ('random documents (texts, pictures, scripts, no content; explicit durations, references, switches, animations, fades) under random request histories, drawing, resizing, cancelled by stop, '
        'deletion or natural end, plus documents that fail to load; online checker over the log of content players (created, started, paused, resumed, stopped, deleted) against the states '
        'of their media; no player and no lost memory after each document; the same presentation repeated must not need more memory each time; user data histories against an exactly-once '
        'model of the clean-up calls; non-trivial when at least two players lived and one was stopped before the end of its presentation, or a clean-up was called')

class Watch:
    """exactly one player per presented media"""
    def __init__(self, w): self.w, self.st, self.n = w, {}, 0
    def feed(self, lines, what):
        for t in lines:
            if t[0] != 'P': continue
            o, k = dec(t[1]), t[2]
            st = self.st.get(o)
            self.w.count('player ' + k)
            ok = {'new': st is None, 'start': st == 'new', 'pause': st == 'start', 'resume': st == 'pause', 'stop': st in ('start', 'pause'), 'delete': st in ('stop', 'new')}.get(k)
            if ok is None: raise Violation('log', 'unknown player event %s' % k)
            if not ok: raise Violation('player', '%s of the player of %s, which %s, after %s' % (k, o, 'does not exist' if st is None else 'was last told to ' + st, what))
            if k == 'delete': del self.st[o]
            else: self.st[o] = 'start' if k == 'resume' else k
            if k == 'new': self.n += 1
    def check(self, s, what):
        for t in s.cmd('state'):
            if t[0] != 'S': continue
            o = dec(t[1])
            if o in self.media:
                e = {'z': None, 'o': 'start', 'p': 'pause'}[t[2]]
                if self.st.get(o) != e: raise Violation('player', 'after %s media %s is %s and its player %s' % (what, o, SN[t[2]], {None: 'does not exist', 'start': 'runs', 'pause': 'is paused'}.get(self.st.get(o), self.st.get(o))))
        n = int(s.r('players')[0])
        if n != len(self.st): raise Violation('player', '%d players live, %d are known: %s' % (n, len(self.st), sorted(self.st)))

def over(w, s, W, what, leak):
    if W and W.st: raise Violation('player', 'players outlive the document: %s (after %s)' % (W.st, what))
    n = int(s.r('players')[0])
    if n: raise Violation('player', '%d players outlive the document after %s' % (n, what))
    if leak:
        w.count('leak checks')
        if s.r('leak')[0] != '0': raise Violation('leak ' + lsig(s.stderr()), 'memory is lost after %s: %s' % (what, s.stderr()[-2500:]))

def lsig(err):
    m = re.findall(r'#\d+ 0x\w+ in (ginga::[\w:~]+)', err)
    return '<'.join(m[:3])

def media_ids(s):
    import json
    d = json.loads(' '.join([t for t in s.cmd('dump') if t[0] == 'J'][0][1:]))
    return {dec(o['id']) for o in d['objects'] if o['kind'] == 'Media'}

PIC = dict(srcs=['t.txt', 'i.png', 's.lua', 'i.png', 't.txt'], content=.8)
def document(w, rng):
    if rng.random() < .25: return c17.build(w, rng, 320, 240)
    k = dict(rng.choice([{}, dict(links=(1, 4)), dict(refer=.5, switch=.4, depth=3, refer_in_switch=.4), dict(expdur=.8), dict(trans=.7, desc=.6), dict(delay=.7, dur=.7), dict(settings=.8, focus=.6), dict(area=.8, label=.5), dict(crowd=1)]))
    if rng.random() < .6: k.update(PIC)
    return Gen(rng, **k).doc()

def request(rng, objs):
    """a random request, not looking at a model"""
    q = rng.random()
    if q < .35: return ['tick', 0, rng.choice(TICKS), 0]
    if q < .45: return ['key', rng.choice(KEYS), int(rng.random() < .6)]
    if q < .52: return ['draw', 320, 240]
    if q < .54: return ['resize', rng.choice([160, 320]), rng.choice([120, 240])]
    o = rng.choice(objs)
    if q < .8: return ['act', o, 'P', '@lambda', rng.choice(TRS + ['start', 'pause', 'resume']), '']
    return ['setprop', o, rng.choice(['left', 'width', 'background', 'transparency', 'visible', 'bounds', 'zIndex', 'explicitDur', 'x']), None, rng.choice([0, 0, SEC // 2, SEC])]

VAL = {'left': ['0', '10%'], 'width': ['10', '50%', '1'], 'background': ['red', '', '#fff'], 'transparency': ['0', '50%'], 'visible': ['true', 'false'], 'bounds': ['0,0,10,10', '1%,1%,50%,50%'], 'zIndex': ['1', '-1'], 'explicitDur': ['1s', '0.5s'], 'x': ['', '1', 'abc']}

def live(w, rng):
    s = w.session()
    d = document(w, rng)
    xml = d.xml(); path = w.write('d.ncl', xml)
    log = []
    w.note = dict(document=xml, requests=log)
    s.cmd('new', 320, 240, '', 0, 0, 0)
    early = False
    for turn in range(rng.choice([1, 1, 2, 3])):
        W = Watch(w)
        l = s.cmd('start', path); log.append(['start'])
        W.feed(l, 'start')
        r = [t for t in l if t[0] == 'R'][-1]
        if r[1] != '1':
            w.drop(); raise Skip('not started')
        W.media = media_ids(s)
        if not W.media: break
        objs = sorted(W.media)
        W.check(s, 'start')
        ended = False
        for _ in range(rng.randint(3, 40)):
            op = request(rng, objs)
            if op[0] == 'setprop': op[3] = rng.choice(VAL[op[2]])
            log.append(op)
            try: l = s.cmd(*op)
            except Crash as e:
                # a value that cannot be shown ends the process, naming it
                if e.kind == 'gerror': raise Skip('diagnosed')
                raise
            W.feed(l, op)
            if s.r('status')[0] == '0': ended = True; break
            W.check(s, op); w.count('requests watched')
            early = early or any(t[0] == 'P' and t[2] == 'stop' for t in l)
        if not ended:
            k = rng.choice(['stop', 'stop', 'del'])
            log.append([k])
            W.feed(s.cmd(k), k)
            if k == 'del':
                over(w, s, W, log[-1], False)
                s.cmd('new', 320, 240, '', 0, 0, 0)
            w.count('discarded while playing')
        else: w.count('ended by themselves')
        over(w, s, W, log[-1], rng.random() < .35)
    s.cmd('del')
    over(w, s, None, 'the presenter is deleted', rng.random() < .2)
    if early and W.n > 1: w.seen(xml, log); w.sample(dict(document=xml[:1500], requests=log[:20]))

def failing(w, rng):
    """documents that are refused leave nothing behind"""
    s = w.session()
    d = Gen(rng).doc()
    txt = d.xml().encode()
    txt, names = mut.byte_mut(txt, rng, txt) if rng.random() < .3 else structure_mut(d, rng)
    p = w.write('d.ncl', txt)
    w.note = dict(document=txt.decode('latin-1'), mutation=names)
    r = s.r('parse', p, 320, 240)
    s.cmd('unparse')
    w.count('failing loads' if r[0] == '0' else 'mutated loads')
    over(w, s, None, 'a document that is %s' % ('refused' if r[0] == '0' else 'loaded'), True)
    w.seen(txt)

def structure_mut(d, rng):
    import re as _re
    t = d.xml()
    a = list(_re.finditer(r'"([^"]*)"', t))
    for _ in range(rng.randint(1, 3)):
        m = rng.choice(a); v = rng.choice(a).group(1) if rng.random() < .5 else rng.choice(['', 'x', '-1', '10%', '1s', 'onBegin', 'start', '\u00e9', 'a' * 200])
        t = t.replace(m.group(0), '"%s"' % v, 1)
    return t.encode(), 'attribute values'

def steady(w, rng):
    """the same presentation again and again needs no more memory"""
    s = w.session()
    d = document(w, rng)
    xml = d.xml(); path = w.write('d.ncl', xml)
    ops = []
    w.note = dict(document=xml, requests=ops)
    s.cmd('new', 320, 240, '', 0, 0, 0)
    s.cmd('trace', 0)
    whole = rng.random() < .5
    mem = []
    objs = None
    for n in range(9):
        if n and whole: s.cmd('del'); s.cmd('new', 320, 240, '', 0, 0, 0)
        if s.r('start', path)[0] != '1': w.drop(); raise Skip('not started')
        if objs is None:
            objs = sorted(media_ids(s)) or ['x']
            if objs == ['x']: s.cmd('trace', 1); s.cmd('del'); return
            for _ in range(rng.randint(3, 25)):
                op = request(rng, objs)
                if op[0] == 'setprop': op[3] = rng.choice(VAL[op[2]])
                ops.append(op)
        for op in ops:
            try: s.cmd(*op)
            except Crash as e:
                if e.kind == 'gerror': raise Skip('diagnosed')
                raise
            if s.r('status')[0] == '0': break
        s.cmd('stop')
        mem.append(int(s.r('mem')[0]))
    s.cmd('trace', 1)
    s.cmd('del')
    df = [b - a for a, b in zip(mem, mem[1:])]
    w.count('repeated presentations', 9); w.count('steady checks')
    if all(x > 0 for x in df[-6:]): raise Violation('memory grows', 'each repetition of the presentation needs more memory: %s bytes' % df)
    w.seen(xml, ops)

def udata(w, rng):
    s = w.session()
    keys = ['a', 'b', '', 'k y', 'x' * 50]
    m, ops, exp = {}, [], []
    freed = []
    n = 0
    for _ in range(rng.randint(1, 30)):
        k = rng.choice(keys)
        if rng.random() < .7:
            z = rng.random() < .2
            n += 1
            v = 0 if z else n
            cl = rng.random() < .7
            ops.append('s%s=%d%s' % (enc(k), v, '!' if cl else ''))
            f = [m[k][0]] if k in m and m[k][1] else []
            freed += f
            exp.append(['U', 's', str(int(not z and k not in m))] + [str(x) for x in f])
            if z: m.pop(k, None)
            else: m[k] = (v, cl)
        else:
            ops.append('g' + enc(k))
            exp.append(['U', 'g', '1', str(m[k][0])] if k in m else ['U', 'g', '0', '-1'])
    w.note = dict(operations=ops)
    l = [t for t in s.cmd('udata', *ops) if t[0] == 'U']
    got = l[:-2]
    for e, g, o in zip(exp, got, ops):
        if e != g: raise Violation('user data', 'operation %s of %s: %s, expected %s' % (o, ops, g, e))
    end = [int(x) for x in l[-1][2:]]
    want = sorted(freed + [v for v, c in m.values() if c])
    if sorted(end) != want: raise Violation('user data', 'cleaned up %s, expected %s, by %s' % (sorted(end), want, ops))
    w.count('clean-ups', len(want)); w.count('user data histories')
    if want: w.seen('udata', ops)

def case(w, i, rng):
    q = rng.random()
    if q < .62: live(w, rng)
    elif q < .78: udata(w, rng)
    elif q < .9: failing(w, rng)
    else: steady(w, rng)
def setup(w): c17.setup(w)
