from engine import *
import paint
from spec import pct, times
ID = 'C18'
QUICK, THOROUGH = 2000, 60000
RULE = ('one or two shown media whose position, size, transparency and colour are assigned with durations (directly, by links, as compound bounds/location/size, by a fade-in), several at once, '
        'restarted, overridden and cancelled half-way, with pauses, restarts and irregular frame intervals; the value shown by every frame is measured in its pixels and checked online: '
        'between start and target, monotone, exact once the duration has passed, undisturbed otherwise; non-trivial when at least one animation shows an intermediate value')
W, H = 240, 200

class M:
    """what one media must show"""
    def __init__(self, id, col):
        self.id, self.col = id, col
        self.clock = 0
        self.st = 'o'
        self.v = {}           # displayed values
        self.an = {}          # property -> dict(t0, dur, frm, to)
        self.inter = 0
        self.clk = {}

def num(n, s):
    if n in ('left', 'width'): return pct(s, W)
    if n in ('top', 'height'): return pct(s, H)
    return paint.alpha(s)

def val(r, n, lanes):
    B = W if n in ('left', 'width') else H
    if n == 'transparency': return r.choice(['0', '30', '60', '128', '200', '20%', '40%', '80%', '0%'])
    lo, hi = (0, 40) if n in ('left', 'top') else (5, 55)
    while 1:
        k = r.uniform(lo, hi)
        s = r.choice(['%d%%' % max(k, 1 if lo else 0), '%d' % (k * B / 100 + (1 if lo else 0)), '%.2f%%' % k])
        x = float(s.rstrip('%')) * (B / 100. if s.endswith('%') else 1)
        if abs(x - int(x) - .5) > 1e-3: return s

COLS = [(255, 255, 255), (255, 128, 0), (0, 255, 128), (30, 60, 250), (200, 10, 90), (128, 128, 128)]
def hexc(c): return '#%02x%02x%02x' % c

def measure(s, ms, W=W, H=H):
    """{id: dict of displayed values} (None when nothing of it shows)"""
    s.cmd('draw', W, H)
    c = paint.colors(s)
    out = {}
    for m in ms:
        mine = [(k, b) for k, b in c.items() if k != 'not opaque' and k != (0, 0, 0) and (len(ms) == 1 or k[m.chan] > 0)]
        if not mine: out[m.id] = None; continue
        x0, y0 = min(b[0] for _, b in mine), min(b[1] for _, b in mine)
        x1, y1 = max(b[2] for _, b in mine), max(b[3] for _, b in mine)
        n = sum(b[4] for _, b in mine)
        if n != (x1 - x0 + 1) * (y1 - y0 + 1) or len(mine) != 1: raise Violation('picture', 'media %s is not one filled rectangle: %s' % (m.id, mine[:5]))
        out[m.id] = dict(left=x0, top=y0, width=x1 - x0 + 1, height=y1 - y0 + 1, colour=mine[0][0])
    return out

def idle(s, id, n):
    for t in s.cmd('state'):
        if t[0] == 'S' and t[1] == id:
            return not any(e.split(':')[:2] == ['A', n] for e in t[5:])
    raise Violation('state', 'no %s' % id)

def pt(x): return (x, x)
def fade_in(m, du):
    to = m.v['transparency'][0]
    m.an['transparency'] = An(0, du, (0, 0), to); m.v['transparency'] = (0, 0)
    m.unseen = (min(0, to), max(0, to))  # until a frame shows it, an assignment may start from either end

class An:
    """an animation towards `to`, begun at t0 from a value in [lo, hi]"""
    def __init__(self, t0, dur, frm, to): self.t0, self.dur, self.frm, self.to = t0, dur, frm, to

def hull(v, an, clock):
    """interval the next frame may show, given the one of the last frame"""
    if an is None: return v
    if clock >= an.t0 + an.dur: return (an.to, an.to)
    return (min(v[0], an.to), max(v[1], an.to))

def say(iv): return '%.6g' % iv[0] if iv[0] == iv[1] else '%.6g to %.6g' % iv

def meet(w, m, n, iv, obs, what):
    """`obs` interval observed where `iv` is allowed"""
    lo, hi = max(iv[0], obs[0]), min(iv[1], obs[1])
    if lo <= hi: return (lo, hi)
    an = m.an.get(n)
    x = 'shows %s after %s' % (say(obs), what)
    if an is None: raise Violation('disturbed', '%s.%s %s, expected %s: nothing animates it' % (m.id, n, x, say(m.v[n])))
    d = 'animated from %s to %s, last shown %s, %d of %d ns' % (say(an.frm), say((an.to, an.to)), say(m.v[n]), m.clock - an.t0, an.dur)
    if m.clock >= an.t0 + an.dur: raise Violation('target', '%s.%s %s, not the target: %s' % (m.id, n, x, d))
    raise Violation('outside or backwards', '%s.%s %s: %s' % (m.id, n, x, d))

def shown(w, m, n, iv, what):
    """the frame shows a value of `iv` for n"""
    an = m.an.get(n)
    if an:
        if m.clock >= an.t0 + an.dur: del m.an[n]; w.count('animations finished')
        else:
            if m.clk.get(n) == (an, m.clock) and (m.v[n][1] < iv[0] or iv[1] < m.v[n][0]): raise Violation('clock', '%s.%s moves while its clock stands still (%s, then %s)' % (m.id, n, say(m.v[n]), say(iv)))
            m.clk[n] = (an, m.clock)
            if not (iv[0] <= an.to <= iv[1]): m.inter += 1
            dist = max(an.frm[0] - an.to, an.to - an.frm[1])
            if abs(m.clock - an.t0) <= an.dur // 2 and dist > 20 and max(abs(iv[0] - an.to), abs(iv[1] - an.to)) < dist / 4:
                raise Violation('too early', '%s.%s is at %s after %d of %d ns, from %s to %s' % (m.id, n, say(iv), m.clock - an.t0, an.dur, say(an.frm), an.to))
    m.v[n] = iv

BG = ('r', 'g', 'b')
def judge(w, ms, got, what):
    for m in ms:
        g = got[m.id]
        m.unseen = None
        if m.st == 'z':
            if g is not None: raise Violation('shown', '%s shows something while it sleeps' % m.id)
            continue
        iv = {n: hull(v, m.an.get(n), m.clock) for n, v in m.v.items()}
        if g is None:
            # nothing to see: too transparent or too dark
            if iv['transparency'][0] > 6 and max(iv[c][0] for c in BG) > 50: raise Violation('not shown', '%s: nothing is shown after %s' % (m.id, what))
            for n in iv: shown(w, m, n, iv[n], what) if n not in m.an or m.clock >= m.an[n].t0 + m.an[n].dur else m.v.update({n: iv[n]})
            continue
        for n in ('left', 'top', 'width', 'height'): iv[n] = meet(w, m, n, iv[n], (g[n], g[n]), what)
        # colour shown = background * opacity
        a = iv['transparency']
        for j, c in enumerate(BG):
            k = g['colour'][j]
            lo = (k - 1.5) * 255. / iv[c][1] if iv[c][1] else 0 if k < 2 else 999
            hi = (k + 1.5) * 255. / iv[c][0] if iv[c][0] else 255
            a = meet(w, m, 'transparency', a, (lo, hi), what)
        for j, c in enumerate(BG):
            k = g['colour'][j]
            lo = (k - 1.5) * 255. / a[1] if a[1] else 0
            hi = (k + 1.5) * 255. / a[0] if a[0] else 255
            iv[c] = meet(w, m, c, iv[c], (lo, hi), what)
        iv['transparency'] = a
        for n in iv: shown(w, m, n, iv[n], what)

DURS = [SEC // 4, SEC // 2, SEC, SEC, 2 * SEC, 3 * SEC, 5 * SEC, 1, SEC // 100]
STEPS = [0, 1, SEC // 60, SEC // 25, SEC // 10, SEC // 4, SEC // 2, SEC, 2 * SEC]

def blank(w, i, rng):
    """a background that comes from nothing or goes away: nothing to interpolate, but the target shows when the duration has passed"""
    d = Doc(); d.id = 'doc'; d.body.id = 'body'
    m = d.body.add(Media('m')); d.body.ports.append(('p', 'm', None))
    cur = rng.choice([None, None, rng.choice(COLS)])
    m.props = [('left', '20'), ('top', '10'), ('width', '50'), ('height', '40')] + ([('background', hexc(cur) if cur else '')] if cur or rng.random() < .5 else [])
    xml = d.xml(); s = w.session(); log = []
    w.note = dict(document=xml, requests=log)
    s.cmd('new', W, H, '', 0, 0, 0)
    r = s.r('start', w.write('d.ncl', xml))
    if r[0] != '1': raise Violation('refused', r[1])
    s.cmd('tick', 0, 0, 0)
    clock, an, what = 0, None, 'start'
    for _ in range(rng.randint(5, 30)):
        if rng.random() < .35:
            to = rng.choice(COLS + [None, None])
            v, du = hexc(to) if to else '', rng.choice(DURS + [0, 0])
            what = ('setprop', 'background', v, du); log.append(what)
            s.cmd('setprop', 'm', 'background', v, du)
            if du == 0: cur, an = to, None
            elif cur is None or an is not None or to is None: an = (clock, du, to); w.count('backgrounds from or to nothing')
            else: an = (clock, du, to)
            if s.r('getprop', 'm', 'background')[0] != v: raise Violation('value', 'after %s the property reads %r' % (what, s.r('getprop', 'm', 'background')))
        else:
            t = rng.choice(STEPS); what = ('tick', t); log.append(what)
            s.cmd('tick', 0, t, 0); clock += t
        s.cmd('draw', W, H)
        c = {k: v for k, v in paint.colors(s).items() if k not in ('not opaque', (0, 0, 0))}
        if an is not None and clock >= an[0] + an[1]: cur, an = an[2], None
        if an is None:
            if set(c) != ({cur} if cur else set()): raise Violation('background', 'after %s the background shows %s, expected %s' % (what, c, cur))
            if cur and c[cur] != (20, 10, 69, 49, 2000): raise Violation('background', 'after %s the background fills %s' % (what, c[cur]))
            w.count('settled backgrounds')
        elif len(c) > 1: raise Violation('background', 'after %s the background shows %s' % (what, c))
    s.cmd('del')
    w.count('backgrounds')
    if an is None: w.seen(xml, log)

def pixels(s, W, H):
    s.cmd('draw', W, H)
    x = s.cmd('pixels')[0][3]
    return [tuple(int(x[j + k:j + k + 2], 16) for k in (2, 4, 6)) for j in range(0, len(x), 8)]

def wipe(w, i, rng):
    """an entry transition: what of the media is not revealed yet shows what lies below, everything else is untouched"""
    W, H = 64, 48
    d = Doc(); d.id = 'doc'; d.body.id = 'body'
    x, y = rng.randint(0, 44), rng.randint(0, 34)
    ww, hh = rng.randint(4, 30), rng.randint(4, 24)
    du = rng.choice([SEC // 3, SEC // 2, SEC, 2 * SEC, 5 * SEC, SEC * 7 // 3])
    kind, sub = rng.choice([('barWipe', 'leftToRight'), ('barWipe', 'topToBottom'), ('barWipe', 'leftToRight'), ('barWipe', 'topToBottom'), ('barWipe', ''), ('diagonalWipe', 'topLeft'), ('diagonalWipe', ''), ('fade', ''), ('irisWipe', 'diamond')])
    below = rng.random() < .7
    d.body.add(Media('none')).props = [('visible', 'false')]; d.body.ports.append(('pn', 'none', None))
    if below:
        b = d.body.add(Media('below')); d.body.ports.append(('pb', 'below', None))
        b.props = [('bounds', '%d,%d,%d,%d' % (rng.randint(0, 30), rng.randint(0, 20), rng.randint(10, 60), rng.randint(10, 40))), ('background', hexc(rng.choice(COLS)))]
    m = d.body.add(Media('m')); d.body.ports.append(('p', 'm', None))
    m.props = [('bounds', '%d,%d,%d,%d' % (x, y, ww, hh)), ('zIndex', '1'), ('background', hexc(rng.choice(COLS)))]
    if kind in ('barWipe', 'diagonalWipe') and rng.random() < .4: m.src = 'i.png'
    if rng.random() < .3: m.props.append(('transparency', rng.choice(['30%', '50%', '90'])))
    if rng.random() < .3:
        a = d.body.add(Media('above')); d.body.ports.append(('pa', 'above', None))
        a.props = [('bounds', '%d,%d,12,12' % (rng.randint(0, 50), rng.randint(0, 30))), ('zIndex', '2'), ('background', hexc(rng.choice(COLS)))]
    bg = rng.choice(['', '#203040', '#00ff00'])
    s = w.session()
    ps = []
    # the frame without the media, and with all of it
    for part in (0, 1):
        e = d.body.ports
        if not part: d.body.ports = [q for q in e if q[0] != 'p']
        s.cmd('new', W, H, bg, 0, 0, 0)
        if s.r('start', w.write('d.ncl', d.xml()))[0] != '1': raise Violation('refused', 'reference document')
        s.cmd('tick', 0, 0, 0)
        ps.append(pixels(s, W, H))
        s.cmd('del')
        d.body.ports = e
    B, F = ps
    d.trans.append([('id', 'tr'), ('type', kind), ('subtype', sub), ('dur', times(du))] if sub else [('id', 'tr'), ('type', kind), ('dur', times(du))])
    d.descs.append([('id', 'de'), ('transIn', 'tr')])
    m.desc = 'de'
    xml = d.xml(); log = []
    w.note = dict(document=xml, background=bg, requests=log)
    s.cmd('new', W, H, bg, 0, 0, 0)
    r = s.r('start', w.write('d.ncl', xml))
    if r[0] != '1': raise Violation('refused', r[1])
    s.cmd('tick', 0, 0, 0)
    st, clock, half, due, last, seen = 'o', 0, 0, None, None, 0
    bar, diag = kind == 'barWipe', kind == 'diagonalWipe'
    def far(p, q): return max(abs(a - b) for a, b in zip(p, q))
    what = 'start'
    for n in range(rng.randint(4, 26)):
        px = pixels(s, W, H)
        w.count('frames of transitions')
        where = 'after %s (%d of %d ns, %s %s, media at %d,%d %dx%d)' % (what, clock, du, kind, sub, x, y, ww, hh)
        if st == 'z':
            if px != B: raise Violation('transition', 'the media shows %s' % where)
        else:
            if diag and due is None and clock >= du / 2:
                half += 1
                if half == 2: due = clock + du / 2
            if not diag: due = du
            if due is not None and clock >= due:
                bad = [k for k in range(W * H) if far(px[k], F[k]) > 2]
                if bad: raise Violation('transition not complete', '%d pixels (first %d,%d: %s, not %s) differ %s' % (len(bad), bad[0] % W, bad[0] // W, px[bad[0]], F[bad[0]], where))
                w.count('transitions finished')
            else:
                if bar: edge = (y + hh * clock / du) if sub == 'topToBottom' else (x + ww * clock / du)
                hidden = 0
                for k in range(W * H):
                    cx, cy = k % W, k // W
                    p = px[k]
                    if not (x <= cx < x + ww and y <= cy < y + hh):
                        if p != B[k]: raise Violation('transition disturbs others', 'pixel %d,%d outside of the media is %s, not %s, %s' % (cx, cy, p, B[k], where))
                        continue
                    if diag:                # the line between the two edges goes from the top left corner to the other diagonal in half of the time, and on
                        u, v = ((cx + .5 - x) / ww + (cy + .5 - y) / hh), 1.5 / ww + 1.5 / hh
                        if (u < 2 * clock / du - v if clock < du / 2 else u < 1 - v) and far(p, F[k]) > 2: raise Violation('wipe', 'pixel %d,%d is %s, not revealed (%s) %s' % (cx, cy, p, F[k], where))
                        if clock < du / 2 and u > 2 * clock / du + v and far(p, B[k]) > 2: raise Violation('wipe', 'pixel %d,%d is %s, not what is below (%s) %s' % (cx, cy, p, B[k], where))
                    if bar:
                        c = (cy if sub == 'topToBottom' else cx)
                        if c + 1 <= edge - 1 and far(p, F[k]) > 2: raise Violation('wipe', 'pixel %d,%d is %s, not revealed (%s) %s' % (cx, cy, p, F[k], where))
                        if c >= edge + 1 and far(p, B[k]) > 2: raise Violation('wipe', 'pixel %d,%d is %s, not what is below (%s) %s' % (cx, cy, p, B[k], where))
                        if far(p, F[k]) > 2 < far(p, B[k]): raise Violation('wipe', 'pixel %d,%d is %s, neither the media (%s) nor what is below (%s) %s' % (cx, cy, p, F[k], B[k], where))
                    else:
                        if far(p, F[k]) + far(p, B[k]) > far(F[k], B[k]) + 9: raise Violation('transition', 'pixel %d,%d is %s, not between %s and %s %s' % (cx, cy, p, B[k], F[k], where))
                    if last and far(p, F[k]) > far(last[k], F[k]) + 3: raise Violation('transition goes back', 'pixel %d,%d was %s and is %s, towards %s, %s' % (cx, cy, last[k], p, F[k], where))
                    if F[k] != B[k] and far(p, F[k]) > 40: hidden += 1
                if clock == 0 and px != B and max(map(far, px, B)) > (90 if diag else 3) : raise Violation('transition', 'the media shows at once: %s' % where)
                if clock <= du // 4 and not hidden and sum(far(B[k], F[k]) > 120 for k in range(W * H)) > ww * hh // 2: raise Violation('transition', 'nothing is hidden any more %s' % where)
                seen += 0 < clock
            last = px
        q = rng.random()
        if q < .75 or clock == 0:
            t = rng.choice([0, SEC // 60, SEC // 25, SEC // 10, SEC // 4, du // 5, du // 3, du // 2, du])
            what = ('tick', t); s.cmd('tick', 0, t, 0)
            if st == 'o': clock += t
        elif st == 'z':
            what = 'start'
            if s.r('act', 'm', 'P', '@lambda', 'start', '')[0] != '1': raise Violation('refused', 'start is refused')
            st, clock, half, due, last = 'o', 0, 0, None, None
        elif q < .9:
            what = 'pause' if st == 'o' else 'resume'
            if s.r('act', 'm', 'P', '@lambda', what, '')[0] != '1': raise Violation('refused', '%s is refused' % what)
            st = 'p' if st == 'o' else 'o'
        else:
            what = 'stop'; s.cmd('act', 'm', 'P', '@lambda', 'stop', ''); st = 'z'
        log.append(what)
    s.cmd('del')
    w.count('transitions')
    if seen: w.seen(xml, log)

def case(w, i, rng):
    if rng.random() < .08: return blank(w, i, rng)
    if rng.random() < .1: return wipe(w, i, rng)
    two = rng.random() < .25
    ms = []
    d = Doc(); d.id = 'doc'; d.body.id = 'body'
    links = []
    fade = None
    for k in range(2 if two else 1):
        m = M('m%d' % k, None)
        m.chan = k
        x = d.body.add(Media(m.id))
        d.body.ports.append(('p%d' % k, m.id, None))
        p = {n: val(rng, n, two) for n in ('left', 'width')}
        if two: p['top'], p['height'] = ('%d' % (k * 100), '80'); col = [(255, 0, 0), (0, 255, 0)][k]
        else: p['top'], p['height'] = val(rng, 'top', 0), val(rng, 'height', 0); col = rng.choice(COLS)
        p['background'] = hexc(col)
        tr = rng.choice(['', '', '', '40%', '100'])
        if tr: p['transparency'] = tr
        m.v = {n: pt(num(n, p[n])) for n in ('left', 'top', 'width', 'height')}
        m.v['transparency'] = pt(paint.alpha(tr))
        m.v.update(zip(BG, map(pt, col)))
        x.props = list(p.items())
        if rng.random() < .15:
            du = rng.choice(DURS[1:7])
            d.trans.append([('id', 'tr%d' % k), ('type', 'fade'), ('dur', times(du))])
            d.descs.append([('id', 'de%d' % k), ('transIn', 'tr%d' % k)])
            x.desc = 'de%d' % k
            fade_in(m, du); m.fade = du
            w.count('fades')
        ms.append(m)
    # links: key -> set with duration
    plan = {}
    for key in ('RED', 'GREEN', 'YELLOW', 'BLUE'):
        m = rng.choice(ms)
        n, v, du = pick(rng, two, m)
        plan[key] = (m, n, v, du)
        c = Connector('k' + key, Cond('onSelection', None, key), Action('set', None, '$v', '$d'), ['v', 'd'])
        d.conns.append(c)
        xm = [y for y in d.body.children if y.id == m.id][0]
        if not any(a == n for a, _ in xm.props): xm.props.append((n, None))
        d.body.links.append(Link(c, [Bind('onSelection', m.id), Bind('set', m.id, n, [('v', v), ('d', times(du))])]))
    xml = d.xml()
    path = w.write('d.ncl', xml)
    s = w.session()
    log = []
    w.note = dict(document=xml, requests=log)
    s.cmd('new', W, H, '', 0, 0, 0)
    r = s.r('start', path)
    if r[0] != '1': raise Violation('refused', r[1])
    s.cmd('tick', 0, 0, 0)
    judge(w, ms, measure(s, ms), 'start')
    what = 'start'
    for _ in range(rng.randint(4, 40)):
        q = rng.random()
        m = rng.choice(ms)
        if q < .6:
            t = rng.choice(STEPS) if rng.random() < .7 else rng.randint(0, 2 * SEC)
            what = ('tick', t); log.append(what)
            s.cmd('tick', 0, t, 0)
            for x in ms:
                if x.st == 'o': x.clock += t
        elif q < .8 and m.st != 'z':
            n, v, du = pick(rng, two, m)
            if rng.random() < .25: du = 0
            what = ('setprop', m.id, n, v, du); log.append(what)
            # (a link only sets a property when no assignment to it is going on)
            keys = [k for k, p in plan.items() if p[0] is m and m.st == 'o' and idle(s, m.id, p[1])] if du and rng.random() < .5 else []
            if keys:
                key = rng.choice(keys)
                _, n, v, du = plan[key]
                log[-1] = what = ('key', key, n, v, du)
                s.cmd('key', key, 1); s.cmd('key', key, 0)
            else: s.cmd('setprop', m.id, n, v, du)
            apply(w, m, n, v, du)
            g = s.r('getprop', m.id, n)
            if g[0] != v: raise Violation('value', 'after %s the property reads %r' % (what, g[0]))
        elif q < .87 and m.st != 'z':
            tr = 'pause' if m.st == 'o' else 'resume'
            what = (tr, m.id); log.append(what)
            if s.r('act', m.id, 'P', '@lambda', tr, '')[0] != '1': raise Violation('refused', '%s of %s is refused' % (tr, m.id))
            m.st = 'p' if tr == 'pause' else 'o'
        elif q < .9:
            if m.st == 'z':
                what = ('start', m.id); log.append(what)
                if s.r('act', m.id, 'P', '@lambda', 'start', '')[0] != '1': raise Violation('refused', 'start of %s is refused' % m.id)
                m.st, m.clock = 'o', 0
                m.an.clear()
                # the values it has now are shown at once
                v = s.r('getprop', m.id, 'left', 'top', 'width', 'height', 'transparency', 'background')
                m.v = {n: pt(num(n, x)) for n, x in zip(['left', 'top', 'width', 'height', 'transparency'], v)}
                m.v.update(zip(BG, map(pt, paint.rgb(v[5]))))
                m.clk = {}
                if getattr(m, 'fade', 0): fade_in(m, m.fade)
                w.count('restarts')
            elif len([x for x in ms if x.st != 'z']) > 1 :
                what = ('stop', m.id); log.append(what)
                s.cmd('act', m.id, 'P', '@lambda', 'stop', ''); m.st = 'z'
                m.an.clear()
        else: what = 'draw again'; log.append(what)
        if what == 'draw again' or rng.random() < .93 or what[0] in ('setprop', 'key'):
            judge(w, ms, measure(s, ms), what)
            w.count('frames')
        else: w.count('frames dropped')
    s.cmd('del')
    w.count('intermediate values', sum(m.inter for m in ms))
    if any(m.inter for m in ms): w.seen(xml, log); w.sample(dict(document=xml[:1500], requests=log[:12]))

def pick(rng, two, m):
    n = rng.choice(['left', 'width', 'left', 'width', 'transparency', 'transparency'] if two else
                   ['left', 'top', 'width', 'height', 'transparency', 'background', 'background', 'bounds', 'location', 'size'])
    f = lambda x: val(rng, x, two)
    if n == 'background': v = hexc(rng.choice(COLS))
    elif n == 'bounds': v = ','.join(f(x) for x in ('left', 'top', 'width', 'height'))
    elif n == 'location': v = ','.join(f(x) for x in ('left', 'top'))
    elif n == 'size': v = ','.join(f(x) for x in ('width', 'height'))
    else: v = f(n)
    return n, v, rng.choice(DURS)

PARTS = {'bounds': ('left', 'top', 'width', 'height'), 'location': ('left', 'top'), 'size': ('width', 'height')}
def apply(w, m, n, v, du):
    if n in PARTS:
        for a, b in zip(PARTS[n], v.split(',')): apply(w, m, a, b, du)
        return
    w.count('animations' if du else 'immediate assignments')
    for n, to in zip(BG, paint.rgb(v)) if n == 'background' else [(n, num(n, v))]:
        if n == 'transparency' and getattr(m, 'unseen', None): m.v[n] = m.unseen
        if du: m.an[n] = An(m.clock, du, m.v[n], to)
        else: m.v[n] = pt(to); m.an.pop(n, None)
