from engine import *
import paint
from checks import c16
from checks.c16 import getter, value, SCREENS, lround_ok, plain
ID = 'C17'
QUICK, THOROUGH = 1500, 50000
RULE = ('2 to 8 overlapping media (colours, images, texts, none) with random z-index, z-order (declared or from regions), transparency, visibility, background and size, on a presentation '
        'background, under histories of assignments, starts, stops, pauses, ticks and resizes; each frame is compared with an independent painter at every corner and centre of every cell of '
        'the arrangement of rectangles (exact areas per colour when all is opaque) and drawn twice; non-trivial when at least two painted rectangles overlap')
TRN = ['0%', '50%', '100%', '25%', '128', '64', '200', '75%', '255', '0', '1', '']
BGS = list(paint.NAMES) + ['', '#f0f', '#123456', '#7f7f7f', '#fff', '#010203']

QUAD = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (250, 250, 0)]
def setup(w):
    w.write('q.png', paint.png(16, 16, lambda x, y: QUAD[(x >= 8) + 2 * (y >= 8)]))
    w.write('u.png', paint.png(1, 1, lambda x, y: (10, 200, 100)))

FAR = [-2 ** 31, -2 ** 31 + 1, -10 ** 9, -70000, -65537, -32769, -1001, -129, -1, 0, 1, 127, 128, 255, 256, 257, 512, 999, 1000, 1024, 32768, 65536, 65537, 10 ** 6, 2 ** 24 + 1, 10 ** 9, 2 ** 31 - 2, 2 ** 31 - 1]

def build(w, r, W, H):
    d = Doc(); d.id = 'doc'; d.body.id = 'body'
    n = r.randint(2, 8) if r.random() < .94 else r.randint(9, 24)
    regions = r.random() < .35
    if regions:
        for i in range(n):
            at = [('left', value(r, 'left', W, H)), ('top', value(r, 'top', W, H)), ('width', value(r, 'width', W, H)), ('height', value(r, 'height', W, H))]
            at = [(k, plain(v)) for k, v in at]
            at = [(k, '0' if v.startswith('-') else v) for k, v in at]
            if r.random() < .4: at.append(('zIndex', str(r.randint(0, 2))))
            d.regions.append(Region('re%d' % i, at))
            d.descs.append([('id', 'd%d' % i), ('region', 're%d' % i)])
        order = list(range(n)); r.shuffle(order)
    zo = r.sample(range(-5, 40), n)
    far = r.random() < .25
    if far: zo = r.sample(FAR, n)
    scope = d.body
    for i in range(n):
        if i and r.random() < .2:
            c = Context('c%d' % i); scope.add(c); scope.ports.append(('pc%d' % i, c.id, None)); scope = c
        m = scope.add(Media('m%d' % i))
        if r.random() < .9: scope.ports.append(('p%d' % i, m.id, None))
        k = r.random()
        p = {}
        if k < .15: m.src = 'q.png'
        elif k < .2: m.src = 'u.png'
        elif k < .25: m.src = 't.txt'; p['fontColor'] = 'white'
        if r.random() < .85: p['background'] = r.choice(BGS)
        if r.random() < .4: p['transparency'] = r.choice(TRN)
        if r.random() < .15: p['visible'] = r.choice(['false', 'true', 'false'])
        if r.random() < .1: p['explicitDur'] = r.choice(['1s', '2s'])
        if regions:
            m.desc = 'd%d' % order[i]
            if r.random() < .3: p['zIndex'] = str(r.randint(-1, 2))
        else:
            p['zOrder'] = str(zo[i])
            if r.random() < .7: p['zIndex'] = str(r.choice(FAR) if far and r.random() < .5 else r.randint(-2, 2))
            if r.random() < .8:
                p['left'] = value(r, 'left', W, H); p['width'] = value(r, 'width', W, H)
            if r.random() < .8:
                p['top'] = value(r, 'top', W, H); p['height'] = value(r, 'height', W, H)
        m.props = list(p.items()) + c16.spare(r); r.shuffle(m.props)
    scope = d.body
    return d

def layers(m, W, H):
    """painted layers, first to last: (rect, bg rgb or None, content, alpha, id); None when the order is not determined"""
    out = []
    for o in m.medias:
        if o.sleeping(): continue
        g = getter(o)
        if (o.getprop('visible') or 'true') != 'true': continue
        R = paint.rect(g, W, H)
        if R[2] <= 0 or R[3] <= 0: continue
        b = paint.rgb(o.getprop('background'))
        src = o.getprop('uri')
        content = None
        if src.endswith('q.png'): content = 'quad'
        elif src.endswith('u.png'): content = (10, 200, 100)
        elif src.endswith('t.txt'): content = 'text'
        if b is None and content is None: continue
        z = (int(o.getprop('zIndex') or 0), int(o.getprop('zOrder') or 0))
        out.append((z, R, b, content, paint.alpha(o.getprop('transparency')), o.id))
    out.sort(key=lambda x: x[0])
    for a in out:
        for b in out:
            if a is not b and a[0] == b[0] and over(a[1], b[1]): return None
    return out

def over(a, b):
    return a[0] < b[0] + b[2] and b[0] < a[0] + a[2] and a[1] < b[1] + b[3] and b[1] < a[1] + a[3]

def colour(lay, x, y, back):
    """(r, g, b) expected at a pixel, or None when it cannot be told"""
    c, n = back, 0
    for z, R, b, content, a, i in lay:
        if not (R[0] <= x < R[0] + R[2] and R[1] <= y < R[1] + R[3]): continue
        n += 1
        f = a / 255.
        mix = lambda k: None if c is None and f < 1 else tuple((k[j] * f + (c[j] * (1 - f) if c else 0)) for j in range(3))
        if b is not None: c = mix(b)
        if content == 'text':
            if a > 0: c = None
        elif content is not None and a > 0:
            # scaled pictures are blurred near their edges
            u, v = (x + .5 - R[0]) / R[2], (y + .5 - R[1]) / R[3]
            ex, ey = 1.6 / 16 + 1.5 / R[2], 1.6 / 16 + 1.5 / R[3]
            if content == 'quad':
                near = any(abs(u - t) < ex for t in (.5,)) or any(abs(v - t) < ey for t in (.5,))
                k = QUAD[(u >= .5) + 2 * (v >= .5)]
            else:
                near = False
                k = content
            c = None if near else mix(k)
    return (c, n) if c is not None else None

def frame(w, L, W, H, s, back, rng):
    lay = layers(L.m, W, H)
    if lay is None: w.count('frames not judged (equal z)'); s.cmd('draw', W, H); return 0
    s.cmd('draw', W, H)
    h = s.r('hash')
    if rng.random() < .3:
        s.cmd('draw', W, H)
        if s.r('hash') != h: raise Violation('redraw', 'drawing the same instant twice gives two pictures')
        w.count('drawn twice')
    L.snap('draw')
    rects = [x[1] for x in lay]
    w.count('frames'); w.count('layers', len(lay))
    if back[0] != 127.5 and all(x[4] == 255 and x[3] is None for x in lay):
        exp = paint.opaque([(x[1], x[2]) for x in lay], W, H, back)
        got = paint.colors(s)
        if exp != got: raise Violation('frame', 'screen %dx%d: colours drawn %s, expected %s; painted in this order: %s' % (W, H, got, exp, desc(lay)))
        w.count('frames compared exactly')
    pts = []
    for c in paint.cells(rects, W, H):
        pts += [(c[0], c[1]), (c[2] - 1, c[1]), (c[0], c[3] - 1), (c[2] - 1, c[3] - 1), ((c[0] + c[2]) // 2, (c[1] + c[3]) // 2), (c[0] + rng.randrange(c[2] - c[0]), c[1] + rng.randrange(c[3] - c[1]))]
    for z, R, b, content, a, i in lay:
        if content == 'quad':
            for u in (.25, .75):
                for v in (.25, .75): pts.append((int(R[0] + R[2] * u), int(R[1] + R[3] * v)))
    pts = [(x, y) for x, y in pts if 0 <= x < W and 0 <= y < H]
    rng.shuffle(pts)
    pts = pts[:400]
    want = [(p, colour(lay, p[0], p[1], back)) for p in pts]
    want = [(p, e) for p, e in want if e is not None]
    if want:
        t = [t for t in s.cmd('px', *[k for p, _ in want for k in p]) if t[0] == 'X'][0]
        for (p, (c, n)), x in zip(want, t[1:]):
            v = int(x, 16); g = ((v >> 16) & 255, (v >> 8) & 255, v & 255)
            if v >> 24 != 255 or any(abs(g[j] - c[j]) > 2 + n for j in range(3)):
                raise Violation('frame', 'screen %dx%d: pixel %s is %s (opacity %d), expected %s; painted in this order: %s' % (W, H, p, g, v >> 24, tuple(round(k) for k in c), desc(lay)))
        w.count('pixels', len(want))
    return sum(over(a, b) for i, a in enumerate(rects) for b in rects[:i])

def desc(lay): return [dict(id=i, z=z, rect=R, background=b, content=c, opacity=a) for z, R, b, c, a, i in lay]

def text_case(w, rng):
    """text is painted in its rectangle, in its colours, and only there"""
    W, H = 200, 120
    x, y, ww, hh = rng.randint(0, 60), rng.randint(0, 40), rng.randint(50, 120), rng.randint(30, 70)
    bg = rng.choice(['', 'white', 'blue']); fc = rng.choice(['red', 'yellow', '#00ff00'])
    t = rng.choice(['hello', 'W', 'a b c', 'two\nlines', '<b>&amp;', '\u00e9\u00e8', 'x' * 40])
    w.write('tt.txt', t)
    al = rng.choice(['left', 'center', 'right', '']); va = rng.choice(['top', 'middle', 'bottom', ''])
    d = Doc(); d.id = 'doc'; d.body.id = 'body'
    m = d.body.add(Media('m')); m.src = 'tt.txt'; d.body.ports.append(('p', 'm', None))
    m.props = [('left', str(x)), ('top', str(y)), ('width', str(ww)), ('height', str(hh)), ('background', bg), ('fontColor', fc), ('fontSize', rng.choice(['12', '9', '20'])), ('horzAlign', al), ('vertAlign', va)]
    m.props = [(a, b) for a, b in m.props if b]
    s = w.session()
    w.note = dict(document=d.xml(), text=t)
    s.cmd('new', W, H, '', 0, 0, 0)
    r = s.r('start', w.write('d.ncl', d.xml()))
    if r[0] != '1': raise Violation('refused', r[1])
    s.cmd('tick', 0, 0, 0); s.cmd('draw', W, H)
    c = paint.colors(s)
    B, F = paint.rgb(bg) or (0, 0, 0), paint.rgb(fc)
    box = None
    for k, b in c.items():
        if k == (0, 0, 0) and B == (0, 0, 0) or k == B and bg: continue
        if k == (0, 0, 0):
            continue
        # any other colour lies in the rectangle and between background and font colour
        if b[0] < x or b[1] < y or b[2] >= x + ww or b[3] >= y + hh: raise Violation('text outside', 'colour %s of the text occupies %s outside the rectangle %s' % (k, b, (x, y, ww, hh)))
        # (glyphs smoothed per colour component are darker at their edges)
        if not all(k[j] <= max(B[j], F[j]) + 3 for j in range(3)): raise Violation('text colour', 'colour %s is neither the font colour %s nor the background %s' % (k, F, B))
        box = 1
    if box is None: raise Violation('text missing', 'nothing of the text is painted: %s' % c)
    if bg:
        b = c.get(B)
        if b is None or (b[0], b[1], b[2], b[3]) != (x, y, x + ww - 1, y + hh - 1): raise Violation('background', 'background of the text is %s, expected %s' % (b, (x, y, ww, hh)))
    # the picture follows the values, however they came about: assigned one by one, or declared from the start
    def draw():
        s.cmd('draw', W, H); s.cmd('draw', W, H); return s.r('hash')[0]
    vals = dict(m.props); log = []
    w.note['assigned'] = log
    for _ in range(rng.randint(1, 5)):
        n, v = rng.choice([('fontColor', rng.choice(['red', 'yellow', '#00ff00', '#ff00ff'])), ('bgColor', rng.choice(['', 'blue', 'white', '#102030'])), ('fontSize', rng.choice(['7', '12', '16', '30'])), ('fontFamily', rng.choice(['sans', 'serif', 'monospace'])),
            ('fontWeight', rng.choice(['', 'bold', 'normal'])), ('fontStyle', rng.choice(['', 'normal', 'italic'])), ('horzAlign', rng.choice(['left', 'center', 'right', ''])), ('vertAlign', rng.choice(['top', 'middle', 'bottom', ''])),
            ('width', str(rng.randint(50, 120))), ('height', str(rng.randint(30, 70))), ('left', str(rng.randint(0, 60))), ('transparency', rng.choice(['0', '0.5', '.25'])), ('background', rng.choice(['', 'blue', 'white']))])
        vals[n] = v; log.append((n, v))
        s.cmd('setprop', 'm', n, v, 0)
        if rng.random() < .5: s.cmd('draw', W, H)
    one = draw()
    if 'visible' not in vals:
        s.cmd('setprop', 'm', 'visible', 'false', 0); s.cmd('draw', W, H)
        c = paint.colors(s)
        if set(c) != {(0, 0, 0)}: raise Violation('invisible', 'an invisible text paints %s' % c)
    s.cmd('del')
    def fresh(vals):
        m.props = list(vals.items()); rng.shuffle(m.props)
        w.note['declared'] = d.xml()
        s.cmd('new', W, H, '', 0, 0, 0)
        r = s.r('start', w.write('d2.ncl', d.xml()))
        if r[0] != '1': raise Violation('refused', r[1])
        s.cmd('tick', 0, 0, 0); h = draw(); c = paint.colors(s); s.cmd('del')
        return h, c
    two, _ = fresh(vals)
    if one != two: raise Violation('history', 'the text looks different after %s than when these values are declared' % log)
    w.count('text histories')
    # where the text lies
    vals = {k: v for k, v in vals.items() if k not in ('background', 'bgColor', 'transparency')}
    w.write('tt.txt', 'ab'); vals.update(width='120', height='60', left='5', top='5', fontSize='12', fontColor='white', fontFamily='sans')
    for al, a, pos in (('horzAlign', ('left', 'center', 'right'), 0), ('vertAlign', ('top', 'middle', 'bottom'), 1)):
        g = []
        for v in a:
            c = fresh(dict(vals, **{al: v}))[1]
            g.append(min(b[pos] for k, b in c.items() if k != (0, 0, 0)))
        if not (g[0] + 10 < g[1] < g[2] - 10 and abs(g[0] + g[2] - 2 * g[1]) <= 4): raise Violation('alignment', '%s: the text begins at %s for %s' % (al, g, a))
    w.count('text alignments')
    w.count('text frames'); w.seen('text', t, m.props)

def case(w, i, rng):
    if rng.random() < .09: return text_case(w, rng)
    W, H = rng.choice(SCREENS[:5] + SCREENS[6:8])
    d = build(w, rng, W, H)
    xml = d.xml()
    path = w.write('d.ncl', xml)
    s = w.session()
    L = Lock(s, w.stats)
    back, bt = (0, 0, 0), ''
    if rng.random() < .5: bt = rng.choice(['red', 'white', '#123456', 'blue', 'rgba(255,0,0,0.5)', 'rgba(0,0,255,0)'])
    w.note = dict(document=xml, screen=[W, H], background=bt, requests=L.ops)
    s.cmd('new', W, H, bt, 0, 0, 0)
    back = {'rgba(255,0,0,0.5)': (127.5, 0, 0), 'rgba(0,0,255,0)': (0, 0, 0)}.get(bt) or paint.rgb(bt) or (0, 0, 0)
    if not L.start(path):
        if L.err: raise Violation('refused', L.err)
        s.cmd('del'); return
    df = spec.diff(spec.expect(d, W, H, uri=lambda x: 'file://%s/%s' % (w.dir, x)), L.dump)
    if df: raise Violation('structure', df)
    if rng.random() < .9: L.do(['tick', rng.choice([0, 1, SEC // 10])])
    ov = 0
    def ok():
        return all(lround_ok(plain(o.getprop(n)), W, H) for o in L.m.medias for n in ('left', 'top', 'width', 'height') if o.getprop(n))
    for k in range(rng.randint(1, 10)):
        if not L.m.playing: break
        if ok():
            if back == (127.5, 0, 0): w.count('blended backgrounds')
            ov += frame(w, L, W, H, s, back, rng)
        q = rng.random()
        m = rng.choice([o for o in L.m.medias if o.id != '__settings__'])
        if q < .55:
            n = rng.choice(['zIndex', 'zOrder', 'visible', 'transparency', 'background', 'background', 'left', 'top', 'width', 'height', 'bounds'])
            v = {'zIndex': lambda: str(rng.choice(FAR) if rng.random() < .2 else rng.randint(-3, 3)), 'zOrder': lambda: str(rng.choice(FAR) if rng.random() < .2 else rng.randint(-9, 30)), 'visible': lambda: rng.choice(['true', 'false', '']),
                 'transparency': lambda: rng.choice(TRN), 'background': lambda: rng.choice(BGS)}.get(n, lambda: value(rng, n, W, H))()
            if any(e.T == 'A' and e.id == n for e in m.events) and rng.random() < .6: L.do(['act', m.id, 'A', n, 'start', v])
            else: s.cmd('setprop', m.id, n, v, 0); m.setprop(n, v, 0); L.ops.append(['setprop', m.id, n, v])
        elif q < .6:
            W, H = rng.choice(SCREENS[:5])
            L.do(['resize', W, H])
        elif q < .75: L.do(['tick', rng.choice([0, SEC // 10, SEC])])
        else: L.do(['act', m.id, 'P', '@lambda', rng.choice(['stop', 'start', 'pause', 'resume', 'start']), ''])
    s.cmd('del')
    if ov: w.seen(xml, L.ops); w.sample(dict(document=xml[:1500], screen=[W, H], requests=L.ops[:10]))

