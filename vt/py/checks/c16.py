from engine import *
import paint
ID = 'C16'
QUICK, THOROUGH = 2000, 60000
RULE = ('documents of 1 to 6 coloured media on screens of 1x1 to 1920x1080, placed by every mix of left/top/right/bottom/width/height/location/size/bounds in pixels and percentages and by '
        'nested regions, under histories of assignments, resizes, pauses, ticks and restarts; the bounding box and the number of pixels of every colour of every drawn frame must be '
        'those of the rectangles computed from the property values; non-trivial when at least one media is visible and its rectangle is not the whole screen')

PX = ['0', '1', '3', '10', '17', '40', '99', '250']
PC = ['0%', '10%', '25%', '33%', '33.33%', '50%', '66.667%', '100%', '12.5%', '0.4%', '99.9%', '150%', '5%']
def length(r, wild=True):
    k = r.random()
    if k < .4: return r.choice(PX)
    if k < .9: return r.choice(PC)
    return r.choice(['%d' % r.randint(0, 500), '%.3f%%' % r.uniform(0, 110), '%.2f' % (r.randint(0, 80) + r.choice([.25, .8])), '-3', ' 7', '7px', '-10%', '1e1', '20.4', '0.7'] if wild else PX)

SCREENS = [(320, 240), (320, 240), (640, 360), (200, 150), (100, 100), (1, 1), (7, 300), (333, 77), (800, 600), (97, 101)]
WIDE = [(4099, 60), (50, 4100), (8200, 33), (40, 9000), (20001, 10), (2561, 1601)]

class Mode:
    """how a media may be placed, so that each side is given once"""
    def __init__(self, r):
        self.x = r.choice(['left', 'left', 'right']); self.y = r.choice(['top', 'top', 'bottom'])
    def names(self):
        n = [self.x, self.y, 'width', 'height', 'size']
        if getattr(self, 'region', 0):
            # a region gives both sides; only the axes it gives once may be changed
            if self.x == 'right': n = [k for k in n if k not in ('right', 'width', 'size')]
            if self.y == 'bottom': n = [k for k in n if k not in ('bottom', 'height', 'size')]
            if not n: return ['zOrder']
        if (self.x, self.y) == ('left', 'top'): n += ['location', 'bounds']
        return n

def value(r, n, *bases):
    while True:
        v = value_(r, n)
        if lround_ok(','.join(plain(x) for x in v.split(',')), *bases): return v

def value_(r, n):
    if n in ('location', 'size'): return r.choice([', ', ',', ' ,']).join([length(r), length(r)])
    if n == 'bounds': return ','.join(length(r) for _ in range(4))
    return length(r)

def lround_ok(s, *bases):
    """false when rounding is decided by the last bit of the arithmetic"""
    import re
    for p in s.split(','):
        p = p.strip()
        if p.endswith('%'):
            for b in bases:
                v = float(p[:-1]) / 100 * b
                if abs(v - int(v) - .5) < 1e-6 and v > 0: return False
    return True

def number(s):
    """numeric prefix, as the engine reads it"""
    import re
    m = re.match(r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+)', s)
    return m.group(0).strip()

def plain(s):
    """the number or percentage a length stands for"""
    s = s.strip()
    return number(s) + ('%' if s.endswith('%') else '')

def getter(o):
    def get(n):
        v = o.getprop(n)
        return plain(v) if v else ''
    return get

def spare(r):
    """properties without effect, now and then very many"""
    return [(c + 'q%d' % k, r.choice(['', '1', 'w' * 50])) for k in range(r.randint(5, 40)) for c in [r.choice('AafzZ')]] if r.random() < .05 else []

def build(w, r, W, H):
    d = Doc(); d.id = 'doc'; d.body.id = 'body'
    n = r.randint(1, 6)
    cols = r.sample(paint.PALETTE, n)
    z = r.sample(range(-9, 9), n)
    modes = {}
    regs = []
    if r.random() < .4:
        def region(depth):
            at = []
            if r.random() < .8: at.append((r.choice(['left', 'left', 'right']), length(r, False)))
            if r.random() < .8: at.append((r.choice(['top', 'top', 'bottom']), length(r, False)))
            if r.random() < .8: at.append(('width', length(r, False)))
            if r.random() < .8: at.append(('height', length(r, False)))
            r.shuffle(at)
            regs.append(0)
            return Region('re%d' % len(regs), at, [region(depth - 1) for _ in range(r.randint(0, 2))] if depth else [])
        for _ in range(r.randint(1, 3)): d.regions.append(region(3))
    scope = d.body
    for i in range(n):
        if i and r.random() < .2:
            c = Context('c%d' % i); scope.add(c); scope.ports.append(('pc%d' % i, c.id, None)); scope = c
        m = scope.add(Media('m%d' % i))
        scope.ports.append(('p%d' % i, m.id, None))
        md = modes[m.id] = Mode(r)
        p = {'background': cols[i], 'zIndex': str(z[i])}
        if d.regions and r.random() < .8:
            reg = r.choice(spec.all_regions(d))
            d.descs.append([('id', 'd%d' % i), ('region', reg.id)])
            m.desc = 'd%d' % i
            md.x = 'right' if 'right' in dict(reg.at) else 'left'
            md.y = 'bottom' if 'bottom' in dict(reg.at) else 'top'
            md.region = True
        else:
            names = md.names()
            used = set()
            r.shuffle(names)
            PARTS = {'location': {'left', 'top'}, 'size': {'width', 'height'}, 'bounds': {'left', 'top', 'width', 'height'}}
            for nm in names:
                if PARTS.get(nm, {nm}) & used or r.random() < .3: continue
                used |= PARTS.get(nm, {nm})
                p[nm] = value(r, nm, W, H)
        m.props = list(p.items()) + spare(r); r.shuffle(m.props)
    return d, modes

def frame(w, L, W, H, s):
    lay, whole = [], True
    for o in L.m.medias:
        if o.sleeping(): continue
        b = o.getprop('background')
        if b == '': continue
        R = paint.rect(getter(o), W, H)
        g = getter(o)
        if R != paint.rect(lambda n: '' if n in ('right', 'bottom') and g({'right': 'left', 'bottom': 'top'}[n]) else g(n), W, H): w.count('frames not judged (both sides given)'); return []
        lay.append((int(o.getprop('zIndex')), R, paint.rgb(b), o.id))
    lay.sort()
    exp = paint.opaque([(R, c) for _, R, c, _ in lay if R[2] > 0 and R[3] > 0], W, H)
    s.cmd('draw', W, H)
    got = paint.colors(s)
    if got != exp:
        name = {c: i for _, _, c, i in lay}
        rc = {c: R for _, R, c, _ in lay}
        for c in sorted(set(exp) | set(got), key=str):
            if exp.get(c) != got.get(c):
                raise Violation('rectangle', 'screen %dx%d: media %s (%s): expected box and area %s, drawn %s; rectangle %s; properties %s' % (
                    W, H, name.get(c, 'none'), c, exp.get(c), got.get(c), rc.get(c),
                    [(o.id, {n: o.getprop(n) for n in ('left', 'top', 'right', 'bottom', 'width', 'height') if o.getprop(n)}) for o in L.m.medias if o.id == name.get(c)]))
    w.count('frames'); w.count('rectangles', len(lay))
    w.count('clipped', sum(1 for _, R, _, _ in lay if R[0] < 0 or R[1] < 0 or R[0] + R[2] > W or R[1] + R[3] > H))
    return [R for _, R, _, _ in lay if R[2] > 0 and R[3] > 0]

def case(w, i, rng):
    W, H = rng.choice(SCREENS)
    if rng.random() < .02: W, H = 1920, 1080
    if rng.random() < .03: W, H = rng.choice(WIDE)
    if rng.random() < .3: W, H = rng.randint(1, 400), rng.randint(1, 300)
    d, modes = build(w, rng, W, H)
    xml = d.xml()
    path = w.write('d.ncl', xml)
    s = w.session()
    L = Lock(s, w.stats)
    w.note = dict(document=xml, screen=[W, H], requests=L.ops)
    s.cmd('new', W, H, '', 0, 0, 0)
    if not L.start(path):
        if L.err: raise Violation('refused', L.err)
        s.cmd('del'); return
    w0, h0 = W, H
    df = spec.diff(spec.expect(d, W, H), L.dump)
    if df: raise Violation('structure', df)
    def ok():
        return all(lround_ok(plain(o.getprop(n)), W, H) for o in L.m.medias for n in ('left', 'top', 'right', 'bottom', 'width', 'height') if o.getprop(n))
    part = False
    if rng.random() < .9: L.do(['tick', rng.choice([0, 1, SEC // 10])])
    for k in range(rng.randint(1, 12)):
        if not L.m.playing: break
        if ok():
            rs = frame(w, L, W, H, s)
            part = part or any(R != (0, 0, W, H) for R in rs)
        else: w.count('frames not judged (rounding tie)')
        q = rng.random()
        m = rng.choice([o for o in L.m.medias if o.id in modes])
        md = modes[m.id]
        if q < .55:
            n = rng.choice([x for x in md.names()])
            if n == 'zOrder': continue
            v = value(rng, n, W, H)
            if n in ('width', 'height', 'left', 'top') and rng.random() < .08: v = ''
            # properties are assigned through events or directly
            if any(e.T == 'A' and e.id == n for e in m.events) and rng.random() < .6: L.do(['act', m.id, 'A', n, 'start', v])
            else:
                s.cmd('setprop', m.id, n, v, 0); m.setprop(n, v, 0); L.ops.append(['setprop', m.id, n, v])
            w.count('assignments')
        elif q < .75:
            W, H = rng.choice(SCREENS) if rng.random() < .6 else (rng.randint(1, 500), rng.randint(1, 400))
            if rng.random() < .3: W, H = w0, h0
            for _ in range(30):
                if ok(): break
                W, H = rng.randint(1, 500), rng.randint(1, 400)
            L.do(['resize', W, H]); w.count('resizes')
        elif q < .85: L.do(['tick', rng.choice([0, SEC // 10, SEC])])
        else: L.do(['act', m.id, 'P', '@lambda', rng.choice(['stop', 'start', 'pause', 'resume', 'start']), ''])
    s.cmd('del')
    if part: w.seen(xml, L.ops); w.sample(dict(document=xml[:1500], screen=[W, H], requests=L.ops[:10]))
