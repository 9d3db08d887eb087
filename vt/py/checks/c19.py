from engine import *
import paint, os, re
from checks import c16, c17
ID = 'C19'
QUICK, THOROUGH = 700, 20000
PER_SESSION = 60
RULE = ('one to three presenters in one process, their calls interleaved at random: start of generated documents (each followed in lockstep by an interpreter that starts from nothing), stops, '
        'restarts of the same and of other documents, natural ends, starts that fail (missing, malformed, dangling, directory, wrong notation), calls that make no sense in the current state, '
        'options set before, between and during presentations; after each call the called presenter shows what its history alone implies and at random the others are looked at: unchanged; '
        'non-trivial when one presenter ran at least two documents or two presenters were playing at once')

BADDOCS = {'empty.ncl': '', 'text.ncl': 'hello', 'open.ncl': '<ncl><body>', 'root.ncl': '<foo/>', 'bind.ncl': '<ncl><head><connectorBase><causalConnector id="c"><simpleCondition role="onBegin"/><simpleAction role="start"/></causalConnector></connectorBase></head>'
           '<body><media id="a"/><link xconnector="c"><bind role="onBegin" component="zz"/><bind role="start" component="a"/></link></body></ncl>',
           'dup.ncl': '<ncl><body><media id="a"/><media id="a"/></body></ncl>', 'port.ncl': '<ncl><body><port id="p" component="none"/></body></ncl>',
           'imp.ncl': '<ncl><head><regionBase><importBase alias="x" documentURI="none.ncl"/></regionBase></head><body/></ncl>', 'attr.ncl': '<ncl><body><media/></body></ncl>',
           'refer.ncl': '<ncl><body><media id="a" refer="b"/></body></ncl>', 'bad.lua': 'return {"context"', 'err.lua': 'error("x")', 'tab.lua': 'return {"media", "m"}', 'nil.lua': ''}
def setup(w):
    c17.setup(w)
    for n, t in BADDOCS.items(): w.write(n, t)
    w.errs = {}

class Slot:
    """the session seen by one presenter"""
    def __init__(self, s, j): self.s, self.j, self.p = s, j, s.p
    def cmd(self, *a, **k):
        self.s.cmd('swap', self.j)
        o = self.s.cmd(*a, **k)
        self.s.cmd('swap', self.j)
        return o
    def r(self, *a, **k):
        for t in reversed(self.cmd(*a, **k)):
            if t[0] == 'R': return [dec(x) for x in t[1:]]
    def kill(self): self.s.kill()
    def stderr(self): return self.s.stderr()

class P:
    def __init__(self, s, j): self.s, self.j, self.L, self.o, self.runs, self.fails, self.pic, self.fresh = Slot(s, j), j, None, None, 0, 0, None, False
    def playing(self): return self.L is not None and self.L.m is not None and self.L.m.playing

def quiet(lines, what):
    t = [x for x in lines if x[0] in 'EPV']
    if t: raise Violation('effect', '%s has the effect %s' % (what, t[:3]))

def status(p, what):
    st = p.s.r('status')
    if (st[0] == '1') != p.playing(): raise Violation('state', 'presenter %d says it is %s after %s' % (p.j, 'playing' if st[0] == '1' else 'stopped', what))
    if st[0] == '0' and st[2] == '1' : raise Violation('state', 'presenter %d is stopped and keeps its document after %s' % (p.j, what))

def options(p, what):
    o = p.s.r('opts')
    e = [str(p.o['width']), str(p.o['height']), str(int(p.o['debug'])), '0', str(int(p.o['experimental'])), '0', p.o['background']]
    if o != e: raise Violation('options', 'presenter %d: the options read %s, expected %s, after %s' % (p.j, o, e, what))
    for n in ('width', 'height'):
        if p.s.r('geti', n) != [str(p.o[n])]: raise Violation('options', '%s reads %s' % (n, p.s.r('geti', n)))
    for n in ('debug', 'experimental'):
        if p.s.r('getb', n) != [str(int(p.o[n]))]: raise Violation('options', '%s reads %s' % (n, p.s.r('getb', n)))
    if p.s.r('gets', 'background') != [p.o['background']]: raise Violation('options', 'background reads %s' % p.s.r('gets', 'background'))

def ending(d, rng):
    """half of the painted documents end by themselves"""
    if rng.random() < .5: return
    q = [d.body]
    while q:
        for x in q.pop().children:
            if isinstance(x, Media): x.props = [p for p in x.props if p[0] != 'explicitDur'] + [('explicitDur', rng.choice(['0.5s', '1s', '1.5s']))]
            elif hasattr(x, 'children'): q.append(x)

COL = ['', 'red', 'blue', '#123456', 'white']
def case(w, i, rng):
    s = w.session()
    n = rng.choice([1, 2, 2, 2, 3])
    s.cmd('slots', n)
    ps = [P(s, j) for j in range(n)]
    docs = {}
    log = []
    w.note = dict(documents=docs, calls=log)
    cwd = s.r('cwd')
    both = 0
    # a pool of documents, so that the same one is presented several times, also at once
    pool = []
    for k in range(rng.randint(1, 4)):
        if rng.random() < .35: W, H = 320, 240; d = c17.build(w, rng, W, H); pic = True; ending(d, rng)
        else: d = Gen(rng, **rng.choice([{}, dict(links=(1, 4)), dict(settings=.8, focus=.5), dict(refer=.5, switch=.4, depth=3), dict(expdur=.5)])).doc(); pic = False
        x = d.xml(); docs['d%d' % k] = x
        pool.append((d, w.write('d%d.ncl' % k, x), pic, 'd%d' % k))
    O = Ops(rng, dict(stop=1))
    try:
        for step in range(rng.randint(15, 80)):
            p = rng.choice(ps)
            q = rng.random()
            if p.o is None:
                if rng.random() < .15:
                    p.o = dict(width=800, height=600, background='', debug=False, experimental=False); p.s.cmd('newdef'); what = [p.j, 'new']
                else:
                    p.o = dict(width=rng.choice([320, 200, 101]), height=rng.choice([240, 100, 57]), background=rng.choice(COL), debug=rng.random() < .1, experimental=rng.random() < .3)
                    p.s.cmd('new', p.o['width'], p.o['height'], p.o['background'], int(p.o['debug']), 0, int(p.o['experimental'])); what = [p.j, 'new', dict(p.o)]
                log.append(what)
                p.L = None
            elif q < .04:
                what = [p.j, 'delete']; log.append(what)
                quiet_del = p.playing()
                p.s.cmd('del'); p.o = p.L = None
                if quiet_del: w.count('deleted while playing')
                continue
            elif q < .16 or (not p.playing() and q < .55):
                d, path, pic, name = rng.choice(pool)
                if p.playing():
                    what = [p.j, 'start while playing', name]; log.append(what)
                    l = p.s.cmd('start', path); quiet(l, what)
                    if [x for x in l if x[0] == 'R'][-1][1] != '0': raise Violation('accepted', '%s is accepted' % what)
                    w.count('senseless calls')
                elif rng.random() < .25:
                    f = rng.choice(list(BADDOCS) + ['missing.ncl', 'missing.lua', '.', 'i.png', 'sub/none.ncl'])
                    what = [p.j, 'start', f]; log.append(what)
                    path = os.path.join(w.dir, f)
                    l = p.s.cmd('start', path); quiet(l, what)
                    r = [x for x in l if x[0] == 'R'][-1]
                    if r[1] != '0': raise Violation('accepted', '%s is loaded' % f)
                    err = dec(r[2])
                    if not err: raise Violation('no message', '%s fails without a message' % f)
                    if w.errs.setdefault(f, err) != err: raise Violation('message', '%s fails with %r, before with %r' % (f, err, w.errs[f]))
                    p.fails += 1; w.count('failing loads')
                    p.L = None
                else:
                    what = [p.j, 'start', name]; log.append(what)
                    L = Lock(p.s, w.stats); p.L = L
                    if not L.start(path):
                        if L.err: raise Violation('refused', '%s: %s' % (name, L.err))
                        w.count('nothing-started'); p.L = None
                    else:
                        legal_trace(L.raw, what, L.last)
                        df = spec.diff(spec.expect(d, p.o['width'], p.o['height'], uri=lambda x: 'file://%s/%s' % (w.dir, x)), L.dump)
                        if df: raise Violation('structure', df)
                        p.runs += 1; p.pic = pic
                        p.fresh = pic
                        w.count('runs')
            elif q < .66 and not p.playing():
                what = [p.j, rng.choice(['tick', 'key', 'stop', 'draw', 'resize'])]; log.append(what)
                k = what[1]
                l = {'tick': lambda: p.s.cmd('tick', 0, SEC, 0), 'key': lambda: p.s.cmd('key', 'RED', 1), 'stop': lambda: p.s.cmd('stop'), 'draw': lambda: p.s.cmd('draw', 20, 20),
                     'resize': lambda: p.s.cmd('resize', 160, 120)}[k]()
                if k == 'resize': p.o['width'], p.o['height'] = 160, 120
                quiet(l, what)
                if k in ('tick', 'key', 'stop') and [x for x in l if x[0] == 'R'][-1][1] != '0': raise Violation('accepted', '%s is accepted by a stopped presenter' % k)
                if k == 'draw' and 'not opaque' not in paint.colors(p.s): raise Violation('effect', 'a stopped presenter paints')
                w.count('senseless calls')
            elif (q < .24 if p.playing() else q < .72):
                nm = rng.choice(['width', 'height', 'background', 'background', 'debug', 'experimental'])
                v = {'width': lambda: rng.choice([320, 160, 101, 640]), 'height': lambda: rng.choice([240, 120, 57]), 'background': lambda: rng.choice(COL)}.get(nm, lambda: rng.random() < .5)()
                what = [p.j, 'option', nm, v]; log.append(what)
                pl = p.playing()
                if pl and nm in ('width', 'height'):
                    p.L.m.begin(); p.L.m.resize()
                l = p.s.cmd('seti' if nm in ('width', 'height') else 'sets' if nm == 'background' else 'setb', nm, v if isinstance(v, (str, int)) and not isinstance(v, bool) else int(v))
                p.o[nm] = v
                if pl: p.L.cmp_trace(l, what) if nm in ('width', 'height') else quiet(l, what); legal_trace(l, what, p.L.last); p.L.snap(what)
                else: quiet(l, what)
                options(p, what)
                w.count('options set')
            elif p.playing():
                op = O.next(p.L.m)
                if op[0] == 'resize': p.o['width'], p.o['height'] = op[1:3]
                what = [p.j] + list(op); log.append(what)
                try: p.L.do(op); legal_trace(p.L.raw, op, p.L.last)
                except Skip:
                    p.s.cmd('del'); p.o = p.L = None
                    w.count('runs given up'); continue
                if p.playing() and p.pic and (p.fresh or rng.random() < .3):
                    p.fresh = False
                    m = p.L.m
                    if all(c16.lround_ok(c16.plain(o.getprop(x)), p.o['width'], p.o['height']) for o in m.medias for x in ('left', 'top', 'width', 'height') if o.getprop(x)) and not p.o['debug']:
                        c17.frame(w, p.L, p.o['width'], p.o['height'], p.s, paint.rgb(p.o['background']) or (0, 0, 0), rng)
            else: continue
            w.count('calls')
            status(p, what)
            if rng.random() < .3:
                for x in ps:
                    if x is not p and x.o is not None:
                        status(x, what); options(x, what)
                        if x.playing(): x.L.snap(what); w.count('others looked at')
            both += sum(x.playing() for x in ps) > 1
        if s.r('cwd') != cwd: raise Violation('process', 'the working directory changed from %s to %s' % (cwd, s.r('cwd')))
        for p in rng.sample(ps, len(ps)):
            if p.o is not None: p.s.cmd('del'); p.o = None
    except Crash as e:
        # a value that cannot be shown ends the process, naming it
        if e.kind == 'gerror' and re.search("property '\\w+': bad value '", e.sig): raise Skip('diagnosed')
        raise
    except Skip:
        w.drop() if s.p.poll() is None else None
        raise
    w.count('calls with two playing', both)
    if both or any(p.runs > 1 for p in ps): w.seen(docs, log); w.sample(dict(calls=log[:20], documents={k: v[:600] for k, v in docs.items()}))
