from engine import *
from spec import pct
import model
ID = 'C24'
QUICK, THOROUGH = 6000, 200000
RULE = ('(a) lockstep documents in which most media are scripts (in different directories, declared by type or by file name, with labelled anchors and properties), under requests, keys, assignments with and '
        'without duration, frames, resizes and events posted by the scripts; the log of the recording script engine is compared, media by media and call by call, with the one the reference interpreter implies, '
        'and its posts must cause exactly the transitions of the own media; (b) media of random declared types and file names: the class of the started player is the one of the content type; '
        '(c) content types of random file names; non-trivial when a script was opened, told something and closed, or a class was compared')
W, H = 320, 240
SRC = ['s0.lua', 's1.lua', 'd/s2.lua', 's3.dat', 'd/e-f/s4.lua', 's5.lua', 'd/s6', 's7.lua', 's8.x.lua', 's9.lua']
NCLUA = 'application/x-ginga-NCLua'

def setup(w):
    os.makedirs(os.path.join(w.dir, 'd', 'e-f'), exist_ok=True)
    for x in SRC: w.write(x, '-- script\n')
    for x in ('i.PNG', 'noext', 'a.b/plain', 'i.jpg', 't2.txt'):
        os.makedirs(os.path.dirname(os.path.join(w.dir, x)), exist_ok=True)
        w.write(x, open(os.path.join(w.dir, 'i.png' if 'i.' in x else 't.txt'), 'rb').read())

IGNORED = ('time', 'duration')   # assigned by the engine itself on an entry by an anchor

class SLock(Lock):
    W, H = W, H
    def bind(self, scripts):
        """scripts: basename -> (media id, directory)"""
        self.scripts = scripts
        self.ofmedia = {m: b for b, (m, _) in scripts.items()}
        self.opened, self.closed, self.told = set(), set(), 0
    def do(self, op):
        if op[0] == 'resize': self.W, self.H = op[1], op[2]
        Lock.do(self, op)
        cwd = self.s.r('cwd')[0] if op[0] in ('draw', 'stop') else None
        if cwd is not None and cwd != self.cwd: raise Mismatch('directory', 'the working directory is %s after %s' % (cwd, op), op)
    def cmp_scripts(self, lines, op):
        got = {}
        for t in lines:
            if t[0] != 'L': continue
            a = [dec(x) for x in t[1:]]
            b = a[1]
            if b not in self.scripts: raise Mismatch('script', 'script %r, which is no content of the document, is called after %s' % (b, op), op)
            m, d = self.scripts[b]
            k = a[0]
            if k == 'open':
                x = ('open', int(a[2]), int(a[3]))
                if a[4] != d: raise Mismatch('script directory', 'script %s of %s is opened in %s, not in %s' % (b, m, a[4], d), op)
            elif k == 'cycle':
                x = ('cycle',)
                if a[2] != d: raise Mismatch('script directory', 'script %s of %s runs in %s, not in %s' % (b, m, a[2], d), op)
            elif k == 'close': x = ('close',)
            elif k == 'key': x = ('key', a[2], a[3])
            elif k == 'ncl': x = tuple(a[2:5]) + ((a[5],) if a[2] == 'attribution' else ())
            else: raise Mismatch('script', 'unexpected call %s' % a, op)
            got.setdefault(m, []).append(x)
        exp = {}
        for x in self.m.scripts:
            m, k = x[0], x[1]
            l = exp.setdefault(m, [])
            if k == 'open':
                l.append(('open', pct(x[2] or '100%', self.W), pct(x[3] or '100%', self.H)))
            elif k == 'attribution': l += [(k, 'start') + x[2:], (k, 'stop') + x[2:]]
            elif k == 'presentation': l.append((k,) + x[2:])
            else: l.append(x[1:])
        for m in sorted(set(got) | set(exp)):
            g = [x for x in got.get(m, []) if not (x[0] == 'attribution' and x[2] in IGNORED)]
            e = [x for x in exp.get(m, []) if not (x[0] == 'attribution' and x[2] in IGNORED)]
            if op[0] == 'resize':
                # a resize re-evaluates lengths: whether scripts are told so is left open
                g, e = [x for x in g if x[0] != 'attribution'], [x for x in e if x[0] != 'attribution']
            if op[0] == 'draw':
                # the script is told of the assignments with duration that end
                o = self.m.byname(m)
                ended = [x[2:] for x in g if x[0] == 'attribution' and x[1] == 'start']
                if [y for x in ended for y in (('attribution', 'start') + x, ('attribution', 'stop') + x)] != [x for x in g if x[0] == 'attribution']:
                    raise Mismatch('script log', 'script of %s is told of ended assignments by %s' % (m, g), op)
                for n, v in ended:
                    a = o.pl.anim.pop(n, None)
                    if a is None and n in ('right', 'bottom') and o.getprop(n) == v: continue
                    if a is None or a[0] not in ('', v): raise Mismatch('script log', 'script of %s is told by a frame that %s becomes %r, which was not going on' % (m, n, v), op)
                    self.count('told of ended animations')
                for n, (v, t0, dur) in o.pl.anim.items():
                    if o.st() == 'o' and t0 is not None and o.time - t0 > dur * 1.001 + 10: raise Mismatch('script log', 'script of %s is not told of the end of %s=%r after %d of %d ns' % (m, n, v, o.time - t0, dur), op)
                g = [x for x in g if x[0] != 'attribution']
            for i in range(max(len(g), len(e))):
                a, b = g[i] if i < len(g) else None, e[i] if i < len(e) else None
                if a == b: continue
                if a and b and a[0] == 'attribution' == b[0] and a[:3] == b[:3] and b[3] == '': continue   # the default value
                raise Mismatch('script log', 'script of %s, after %s: expected %s, observed %s (call %d of %s)' % (m, op, b, a, i, g), op)
            self.count('script calls', len(g))
            for x in g:
                self.count('calls: ' + x[0])
                if x[0] == 'open': self.opened.add(m)
                elif x[0] == 'close': self.closed.add(m)
                elif x[0] in ('attribution', 'key') or (x[0] == 'presentation' and x[2]): self.told += 1

def scripts(w, i, rng):
    g = Gen(rng, **dict(rng.choice([dict(), dict(medias=(1, 3), links=(2, 6)), dict(depth=1), dict(switch=.5)]), content=.1, label=rng.choice([.2, .6]), real_props=.6, focus=rng.choice([.2, .7]), dur=.25, props=.7, sel=.4))
    d = g.doc()
    used = {}
    left = list(SRC); rng.shuffle(left)
    for m in g.mediae:
        if m.refer or m is getattr(g, 'set', None) or getattr(m, 'settings', False) or not left or rng.random() < .25: continue
        if m.type == 'application/x-ginga-settings': continue
        if any(n in ('type', 'uri', 'device') for n, _ in m.props): continue
        m.src = left.pop()
        m.type = NCLUA if not m.src.endswith('.lua') or rng.random() < .2 else None
        used[os.path.basename(m.src)] = (m.id, os.path.basename(os.path.dirname(os.path.join(w.dir, m.src))))
    if not used: raise Skip('no script')
    xml = d.xml()
    L0 = []
    class LL(SLock):
        def __init__(self, s, stats):
            SLock.__init__(self, s, stats)
            self.bind(used)
            self.cwd = s.r('cwd')[0]
            s.cmd('ncluareset')
            L0.append(self)
    def each(L, O):
        m = L.m
        live = [x for x in m.medias if x.id in L.ofmedia and x.pl is not None and not x.sleeping()]
        q = rng.random()
        if q < .16: return ['draw']
        if q < .32 and live:
            x = rng.choice(live)
            b = L.ofmedia[x.id]
            k = rng.random()
            act = rng.choice(TRS + ['start', 'stop'] + (['frob', ''] if rng.random() < .2 else []))
            if k < .5:
                labs = [e.lab for e in x.events if e.lab]
                return ['post', x.id, b, 'presentation', act, rng.choice(labs * 3 + ['', 'nosuch']), rng.choice(['', 'v'])]
            if k < .85:
                at = [e.id for e in x.events if e.T == 'A']
                n = rng.choice(at * 3 + ['nosuch', ''])
                return ['post', x.id, b, 'attribution', act if rng.random() < .4 else 'start', n, rng.choice(NUMV.get(n, CUSTV))]
            if k < .93: return ['post', x.id, b, 'key', 'press', rng.choice(KEYS), '']
            return ['post', x.id, b, rng.choice(['selection', 'frob', '']), act, rng.choice(['', 'nosuch']), '']
        if q < .5 and live:
            x = rng.choice(live)
            at = [e for e in x.events if (e.T == 'A' or (e.T == 'P' and e.lab)) and e.id != 'service.currentFocus']
            if at:
                e = rng.choice(at)
                if e.T == 'A': return ['act', x.id, 'A', e.id, rng.choice(['start', 'start', 'stop']), rng.choice(NUMV.get(e.id, CUSTV))]
                return ['act', x.id, 'P', e.id, rng.choice(TRS), '']
        return O.next(m)
    L = lockcase(w, rng, doc=d, each=each, lock=LL, nops=(8, 50), weights=dict(act=30, tick=45, key=18, draw=1),
                 crit=lambda c: L0[0].opened and L0[0].closed and L0[0].told, after=closed)

def closed(L):
    if L.m is None: return
    m = L.m
    m.begin()
    m.stop()
    lines = L.s.cmd('stop')
    m_playing, m.unordered = m.playing, True
    L.cmp_scripts(lines, ['stop'])
    if L.s.r('nclualive')[0] != '0': raise Violation('script left open', '%s scripts are still open after the end' % L.s.r('nclualive')[0])

TYPES = {'text/plain': 't.txt', 'image/png': 'i.png', 'image/x-foo': 'i.png', 'imagefoo': 'i.png', NCLUA: 's0.lua', 'application/x-ginga-timer': None, 'application/x-foo': None,
         'text/plainx': None, 'text': None, 'Text/plain': None, 'application/x-ginga-nclua': None, 'application/x-ginga-NCLuaX': None, ' image/png': None}
FILES = {'i.png': 'image/png', 'i.jpg': 'image/jpeg', 't.txt': 'text/plain', 's0.lua': NCLUA, 's8.x.lua': NCLUA, 't2.txt': 'text/plain'}
def choice(w, i, rng):
    d = spec.Doc(); d.id = 'doc'; d.body.id = 'body'
    want = {}
    for k in range(rng.randint(1, 6)):
        m = spec.Media('m%d' % k); d.body.add(m)
        d.body.ports.append(('p%d' % k, m.id, None))
        q = rng.random()
        if q < .45:
            m.src = rng.choice(list(FILES)); mime = FILES[m.src]
            if m.src.endswith('.lua') and any(c.src == m.src for c in d.body.children[:-1]): m.src = None; mime = 'application/x-ginga-timer'
        elif q < .9:
            mime = m.type = rng.choice(list(TYPES))
            if TYPES[mime]:
                # a file whose name says something else
                ok = {'text/plain': ['t.txt', 'i.png', 's0.lua', 'noext', 'a.b/plain'], NCLUA: ['s1.lua', 's3.dat', 't2.txt', 'd/s6']}.get(mime, ['i.png', 'i.PNG', 'i.jpg'])
                m.src = rng.choice(ok)
        else: mime = 'application/x-ginga-timer'
        if rng.random() < .3: m.props.append(('transparency', '50%'))
        want[m.id] = (mime, model.player_class(mime))
    path = w.write('d.ncl', d.xml())
    w.note = dict(document=d.xml())
    s = w.session()
    s.cmd('new', W, H, '', 0, 0, 0)
    r = [x for x in s.cmd('start', path)]
    t = s.cmd('tick', 0, 0, 0)
    got = {dec(x[1]): dec(x[3]) for x in r + t if x[0] == 'P' and x[2] == 'start'}
    for k, (mime, cls) in sorted(want.items()):
        if got.get(k) != 'ginga::' + cls: raise Violation('player', 'media %s of content type %s is shown by %s, expected %s' % (k, mime, got.get(k), cls))
        x = s.r('getprop', k, 'type')[0]
        if x != mime: raise Violation('type', 'the content type of %s reads %r, expected %r' % (k, x, mime))
        w.count('players compared')
        w.count('player ' + cls)
    s.cmd('draw', W, H)
    s.cmd('del')
    w.seen(d.xml()); w.sample(dict(document=d.xml()[:1500], players=want))

def mimes(w, i, rng):
    s = w.session()
    for _ in range(20):
        e = rng.choice(list(model.MIME))
        base = rng.choice(['a', '', '/x/y', 'a.b', 'http://h/p', 'file:///d.png/f', 'x.txt', 'a b', '\u00e9', '...', '/a.lua/'])
        q = rng.random()
        if q < .6: u, exp = base + '.' + e, model.MIME[e]
        elif q < .75: u = base + '.' + e + rng.choice(['x', '/', '/f', ' ', '.', 'q.zzz']); exp = model.MIME.get(u.rsplit('.', 1)[1], 'fail')
        elif q < .9:
            u = base.replace('.', '') + e; exp = 'fail'
        else:
            u = rng.choice(['', '.', '..', 'a.', '/', 'a.b/c', '.lua', 'x.lua.', 'a.lua/b']); exp = {'.lua': NCLUA}.get(u, 'fail')
        got = s.r('util', 'mime', u)[0]
        if got != exp: raise Violation('content type', 'the content type of %r is %s, expected %s' % (u, got, exp))
        w.count('names')
        w.seen(u)

def case(w, i, rng):
    k = i % 20
    if k < 16: scripts(w, i, rng)
    elif k < 19: choice(w, i, rng)
    else: mimes(w, i, rng)
