from engine import *
import av, os, time, re
ID = 'C25'
QUICK, THOROUGH = 640, 12000
PER_SESSION = 8
TIMEOUT = int(os.environ.get('VT_HANG') or 60)
CHUNK = 4
JOBS = 12
RULE = ('generated documents with one to three media played by GStreamer in real time (videos whose frames are numbered by colour, sounds, signal generators), driven by random starts, stops, '
        'pauses, resumptions, seeks (absolute, relative, before the content is ready), changes of speed, sound levels, visibility and freeze; the frame on the screen is read after every redraw; '
        'non-trivial when at least two kinds of operation met a playing video')
SETTLE = .25            # s the pipeline may still run after it was told to pause
LIMIT = float(os.environ.get('VT_WAIT') or 25)             # s within which what must happen happens (nothing waits for it on a sound tree)

SOUND = ['0', '1', '-1', '0.5', '-0.25', '50%', '100%', '1000%', '-7', '12', '30', '-40', '1e9', '-1e9']
NOISE = [('balance', 'balanceLevel', SOUND), ('volume', 'soundLevel', SOUND), ('volume', 'soundLevel', SOUND), ('bass', 'bassLevel', SOUND), ('treble', 'trebleLevel', SOUND), ('mute', 'mute', ['true', 'false'])]
FREQ = ['440', '0', '1', '-5', '1e9', '50%', '200', '1000', '3333', '750.5']
def num(v): return float(v[:-1]) / 100 if v.endswith('%') else float(v)
def clamp(x, a, b): return max(a, min(b, x))
WAVES = ['sine', 'square', 'saw', 'triangle', 'silence', 'white-noise', 'pink-noise', 'ticks', 'violet-noise', 'unknown', '']

class M:
    """what is known about one medium"""
    def __init__(self, j, kind): self.j, self.id, self.kind = j, 'm%d' % j, kind
    def reset(self):
        self.st = 'idle'; self.hi = 0.; self.rate = self.want = 1.; self.idx = None; self.lo = 0; self.jump = False; self.forced = False; self.frozen = self.freeze0
        self.vis = self.vis0; self.pend = []; self.ready = False; self.now = 0.
    def noise(self, rng):
        """a sound property, always under the same of its names, and a value"""
        n, alias, vs = rng.choice(NOISE if self.kind != 's' or rng.random() < .3 else NOISE[1:2]); v = rng.choice(vs)
        self.snd[n] = v
        return (n, alias)[self.alias], v
    def sound(self):
        """the levels (left, right) and the frequency that are heard sooner or later while it plays, None where nothing is expected"""
        vol = num(self.snd.get('volume', '100%'))
        if self.kind == 's':
            vol = clamp(vol, 0., 1.); f = clamp(num(self.snd.get('freq', '440')), 0., 20000.); w = self.snd.get('wave', 'sine')
            if w == 'silence' or vol == 0: return (0., 0.), None
            if w not in ('sine', 'square', 'saw', 'triangle') or not 50 <= f <= 5000: return None, None
            l = vol * {'sine': .7071, 'square': 1., 'saw': .5774, 'triangle': .5774}[w]
            return (l, l), f
        vol = clamp(vol, 0., 10.)
        if self.snd.get('mute') == 'true' or vol == 0: return (0., 0.), None
        if any(num(self.snd.get(n, '0')) for n in ('bass', 'treble')) or self.ch > 2: return None, None
        b = clamp(num(self.snd.get('balance', '0')), -1., 1.); a = .5 / (3 - self.ch)
        if a * (1 + abs(b)) * vol > .95: return None, None
        r2 = .7071 * vol * a
        return (r2 * (1 - b), r2 * (1 + b)), None
    def audible(self): return self.kind == 'a' and self.snd.get('mute') != 'true' and num(self.snd.get('volume', '1')) > .01
    def dur(self): return self.n / self.fps if self.kind == 'v' else self.secs

def fds(s): return len(os.listdir('/proc/%d/fd' % s.p.pid))

def names(s):
    d = '/proc/%d/fd' % s.p.pid; l = []
    for f in os.listdir(d):
        try: l.append(os.readlink(os.path.join(d, f)))
        except OSError: pass
    return ' '.join(sorted(l))

def setup(w):
    w.base = None

def document(w, rng):
    ms, body, head = [], [], []
    for j in range(rng.choice([1, 1, 2, 2, 3])):
        m = M(j, rng.choice(os.environ.get('VT_KINDS') or ('vvaas' if not any(x.kind in 'as' for x in ms) else 'v')))      # one sound at most: it is known then whose sound is heard
        m.wild = False; m.snd = {}; m.alias = rng.random() < .5
        props = []
        m.freeze0 = m.vis0 = None
        m.freeze0 = False; m.vis0 = True; m.t0 = None; m.s0 = None; m.xd = None
        if m.kind == 'v':
            m.fps = rng.choice([5, 10, 20]); m.n = rng.choice([2, int(m.fps * .7), m.fps, m.fps * 2, m.fps * 30, m.fps * 30]); m.n = min(m.n, 900)
            m.src = w.write('v%d.avi' % j, b''); av.avi(m.src, rng.choice([4, 16, 31]), rng.choice([4, 16, 9]), m.fps, [av.color(i, j) for i in range(m.n)])
            props += [('left', str(j * 60)), ('top', '0'), ('width', '50'), ('height', '50'), ('zIndex', str(j))]
            if rng.random() < .2: m.freeze0 = True; props.append(('freeze', 'true'))
            if rng.random() < .15: m.vis0 = False; props.append(('visible', 'false'))
            if rng.random() < .2: m.t0 = rng.choice([.5, 1., .2]); props.append(('time', '%gs' % m.t0))
            elif rng.random() < .15: m.s0 = rng.choice([2., .5]); props.append(('speed', '%g' % m.s0))
        elif m.kind == 'a':
            m.secs = rng.choice([.3, 1., 2., 30., 30.]); m.fps = 2; m.n = max(1, int(m.secs * 2)); m.ch = rng.choice([1, 2, 2, 4])
            m.src = w.write('a%d.wav' % j, b''); av.wav(m.src, m.secs, 22050 if m.ch == 1 else 8000, m.ch)
            if rng.random() < .2: m.t0 = rng.choice([.5, 1., .2]); props.append(('time', '%gs' % m.t0))
            if rng.random() < .2: m.freeze0 = True; props.append(('freeze', 'true'))
        else:
            m.secs = 1e9; m.src = None
            props += [('left', str(j * 60)), ('top', '0'), ('width', '50'), ('height', '50')]
            if rng.random() < .7:
                m.snd['freq'] = rng.choice(FREQ); props.append(('freq', m.snd['freq']))
            if rng.random() < .5:
                x = rng.choice(WAVES); props.append(('wave', x))
                if x in WAVES[:-2]: m.snd['wave'] = x
        if rng.random() < .5: props.append(m.noise(rng))
        if rng.random() < .15: m.xd = rng.choice([.4, 1.]); props.append(('explicitDur', '%gs' % m.xd))
        m.reset()
        ms.append(m)
        rng.shuffle(props)
        typ = {'v': ' type="video/avi"' if rng.random() < .5 else '', 'a': '', 's': ' type="application/x-ginga-siggen"'}[m.kind]
        body.append('<media id="%s"%s%s>%s</media>' % (m.id, ' src="%s"' % os.path.basename(m.src) if m.src else '', typ,
                                                      ''.join('<property name="%s" value="%s"/>' % p for p in props)))
        body.append('<media id="k%d"/><link xconnector="end"><bind role="onEnd" component="%s"/><bind role="start" component="k%d"/></link>' % (j, m.id, j))
        m.port = rng.random() < .7
        if m.port: body.append('<port id="p%d" component="%s"/>' % (j, m.id))
    rng.shuffle(body)
    doc = ('<ncl id="n"><head><connectorBase><causalConnector id="end"><simpleCondition role="onEnd"/><simpleAction role="start"/></causalConnector></connectorBase></head>'
           '<body id="b"><port id="pz" component="z"/><media id="z"/>%s</body></ncl>' % ''.join(body))
    return doc, ms

class Run:
    def __init__(self, w, s, ms, log):
        self.w, self.s, self.ms, self.log = w, s, ms, log
        self.t0 = self.last = time.monotonic(); self.frame = 0; self.total = 0
        self.ops = set()
        self.loud = next((m for m in ms if m.kind in 'as'), None); self.heard = None; self.played = 0
    def bad(self, key, m, what):
        self.w.note['stderr'] = self.s.stderr()[-4000:]
        raise Violation(key, '%s (%s): %s; state %s, content position at most %.2f s of %.2f s' % (m.id, {'v': 'video', 'a': 'sound', 's': 'signal generator'}[m.kind], what, m.st, m.hi, m.dur()))
    def wall(self):
        """advances the latest content position that each medium can have reached"""
        t = time.monotonic(); d = t - self.last; self.last = t
        for m in self.ms:
            if m.st == 'play': m.hi += d * m.rate
        return d
    def trace(self, out):
        for t in out:
            if t[0] != 'E' or dec(t[2]) != 'P' or dec(t[3]) != '@lambda': continue
            o, tr = dec(t[1]), dec(t[4])
            for m in self.ms:
                if o == m.id:
                    if tr == 'stop': self.stopped(m, out)
                    elif tr == 'start' and dec(t[5]) == 'z':
                        m.reset(); m.st = 'play'; m.t = time.monotonic()
                        self.w.count('starts')
                        # properties of the document
                        # and those set before: they are of the medium, not of one presentation of it
                        if m.wild: continue
                        if m.t0 is not None and m.kind in 'va':
                            x = abs(float(str(m.t0).rstrip('s')))
                            if str(m.t0)[0] == '-': self.seek(m, 0, 0)
                            else: self.seek(m, x, x + (.3 if str(m.t0)[0] == '+' else 0))
                            if x > m.dur() or str(m.t0)[0] == '+' and x > m.dur() - .4: m.forced = True
                        if m.s0 is not None: m.rate = max(1., m.s0); m.want = m.s0
    def stopped(self, m, out):
        if not any(t[0] == 'E' and dec(t[1]) == 'k%d' % m.j and dec(t[4]) == 'start' for t in out) and not m.kdone:
            self.bad('link', m, 'it ended without the effects of the link on its end')
        m.kdone = True
        if m.cause is None:
            if m.wild: self.w.count('ends after odd values')
            elif m.xd is not None and m.tick >= m.xd: self.w.count('ends by duration')
            elif m.forced: self.w.count('ends by seeking past the end')
            elif m.frozen: self.bad('ended', m, 'it ended although it is frozen')
            elif m.hi < m.dur() - .15: self.bad('ended', m, 'it ended before its content')
            else: self.w.count('natural ends')
        m.st = 'idle'; m.fresh = True
    def seek(self, m, lo, hi):
        if m.hi > m.dur() - .3: m.forced = True      # its end may have been noticed already
        m.hi = max(hi, m.hi) if not m.ready else hi
        m.jump = True; m.pend = [lo]
        m.lo = 0 if not m.ready else max(0, int(lo * m.fps) - 2)
    def step(self, ms):
        o = self.s.cmd('pump', ms)
        self.wall()
        t = time.monotonic(); n = int((t - self.t0) * 1e9)
        self.frame += 1
        d, self.total = n - self.total, n
        for m in self.ms:
            m.cause = None
            m.tick = getattr(m, 'tick', 0) if m.st != 'idle' else 0
            if m.st == 'play': m.tick += d / 1e9
        self.trace(self.s.cmd('tick', n, d, self.frame))
        self.s.cmd('draw', 200, 60)
        self.wall()
        px = self.s.cmd('px', *[v for m in self.ms for v in (m.j * 60 + 25, 25)])[-1][1:]
        for m, p in zip(self.ms, px):
            if m.kind == 'v': self.look(m, int(p, 16))
            elif m.kind == 'a':
                if int(p, 16) & 0xffffff: self.bad('sound', m, 'something is drawn: %s' % p)
        if self.loud: self.listen(self.loud)
    def listen(self, m):
        live, total, fill, cross, l, r, even = self.s.r('hear')
        live, total, fill, cross = int(live), int(total), int(fill), int(cross)
        more, self.played = total - self.played, total
        self.heard = (float(l), float(r)), cross * 22050. / fill if fill else 0, fill, total
        if live > 1: self.bad('sinks', m, '%d sinks are open for one sound' % live)
        if more: self.w.count('sounds heard')
        if more and m.st == 'idle' and not m.fresh: self.bad('ghost', m, 'it is heard although it is not being presented')
        m.fresh = False
        if more and m.st == 'pause' and time.monotonic() - m.ptime > 3.: self.bad('pause', m, 'it is heard 3 s after it was paused')
        if m.kind == 'a' and fill == 4096 and max(self.heard[0]) > .004 and float(even) > .5:
            i = int((self.heard[1] - 200) / 40. + .5)
            if not -1 <= i <= m.n: self.bad('frame', m, 'what is heard (%g Hz) is not its content' % self.heard[1])
            self.look(m, None, max(0, min(m.n - 1, i)))
    def look(self, m, p, snd=None):
        i = av.index(p, m.j) if snd is None else snd
        if i == -1: self.bad('frame', m, 'the pixel %08x is of no frame of it' % p)
        if i is None:
            if m.idx is not None and m.st != 'idle' and m.vis: self.bad('lost', m, 'frame %d was shown and now there is nothing' % m.idx)
            return
        self.w.count('frames read' if m.kind == 'v' else 'positions heard')
        if m.st == 'idle' and m.kind == 'v': self.bad('ghost', m, 'frame %d is shown although it is not being presented' % i)
        if m.st == 'idle': return
        if m.kind == 'v' and not m.vis: self.bad('ghost', m, 'frame %d is shown although it is not visible' % i)
        if i >= m.n: self.bad('frame', m, 'frame %d of %d' % (i, m.n))
        if m.wild: m.idx = i; return
        if i != m.idx:
            self.w.count('frame changes')
            if i / m.fps > m.hi + (.12 if m.kind == 'v' else .8) + (SETTLE if m.st == 'pause' else 0) + 1. / m.fps: self.bad('early', m, 'frame %d (%.2f s) is shown too early' % (i, i / m.fps))
            if m.st == 'pause' and time.monotonic() - m.ptime > 3. : self.bad('pause', m, 'the picture changed from %s to %s 3 s after it was paused' % (m.idx, i))
            if m.idx is not None and i < m.idx - (m.kind == 'a') and not m.jump: self.bad('back', m, 'frame %d is shown after frame %d' % (i, m.idx))
            if m.jump and m.ready and i < m.lo: self.bad('seek', m, 'frame %d (%.2f s) is shown after a seek to %.2f s' % (i, i / m.fps, m.pend[-1] if m.pend else -1))
            if m.jump and (not m.pend or i >= int(m.pend[-1] * m.fps) - 2): m.jump = False; m.pend = []
            m.idx = i
            m.ready = True
    def until(self, m, cond, key, what):
        t = time.monotonic()
        while not cond():
            if time.monotonic() - t > LIMIT: self.bad(key, m, what)
            self.step(25)
    # operations
    def act(self, m, tr):
        before = m.st
        for x in self.ms: x.cause = None
        self.wall()
        m.cause = tr
        o = self.s.cmd('act', m.id, 'P', '@lambda', tr)
        ok = next(dec(t[1]) for t in o if t[0] == 'R') != '0'
        e = [dec(t[4]) for t in o if t[0] == 'E' and dec(t[1]) == m.id]
        want = {'start': before == 'idle', 'stop': before != 'idle', 'pause': before == 'play', 'resume': before == 'pause'}[tr]
        if tr == 'start' and before == 'pause': want = True; tr = 'resume'
        if want != bool(e): self.bad('action', m, '%s: transitions %s' % (tr, e))
        self.trace(o)
        if want and tr == 'pause': m.st = 'pause'; m.ptime = time.monotonic()
        if want and tr == 'resume': m.st = 'play'
        self.wall()
        if want: self.ops.add(tr); self.w.count(tr)
        return want
    def setp(self, m, n, v):
        self.log[-1] += [n, v]
        if n == 'time': m.t0 = v
        elif n == 'speed': m.s0 = float(v) if not m.wild else 1.
        elif n == 'freeze': m.freeze0 = m.frozen
        elif n == 'visible': m.vis0 = m.vis
        o = self.s.cmd('setprop', m.id, n, v, '0')
        self.trace(o)

def case(w, i, rng):
    try: run(w, i, rng)
    except Crash as c:
        if c.kind == 'gerror' and any(op[0] == 'odd' for op in w.note.get('operations', ())): w.count('odd values diagnosed'); w.end(); w.base = None
        else: raise
def run(w, i, rng):
    if not GSTDIR: raise Skip('no GStreamer plugins')
    new = w.s is None or w.s.p.poll() is not None or w.nsess >= PER_SESSION
    s = w.session()
    if new: s.cmd('sound')
    if new or w.base is None:
        # what the libraries open once
        av.avi(w.write('w.avi', b''), 4, 4, 10, [av.color(i, 0) for i in range(20)]); av.wav(w.write('w.wav', b''), 1)
        w.write('warm.ncl', '<ncl><body><port id="1" component="a"/><port id="2" component="b"/><port id="3" component="c"/><media id="a" src="w.avi"/><media id="b" src="w.wav"/><media id="c" type="application/x-ginga-siggen"/></body></ncl>')
        s.cmd('new', 200, 60); s.cmd('start', os.path.join(w.dir, 'warm.ncl'))
        for k in range(12): s.cmd('pump', 20); s.cmd('tick', k * 10**8, 10**8, k); s.cmd('draw', 200, 60)
        s.cmd('del'); s.cmd('pump', 50)
        s.cmd('leak')
        w.base = fds(s)
    doc, ms = document(w, rng)
    log = []
    w.note = dict(document=doc, operations=log)
    path = w.write('d.ncl', doc)
    s.cmd('new', 200, 60)
    R = Run(w, s, ms, log)
    for m in ms: m.fresh = True; m.kdone = False; m.cause = None; m.tick = 0
    o = s.cmd('start', path)
    if next(dec(t[1]) for t in o if t[0] == 'R') != '1': raise Violation('start', 'the document does not start: %s' % o[-1])
    R.t0 = R.last = time.monotonic()
    R.trace(o)
    R.step(1)
    for m in ms:
        if m.port != (m.st != 'idle' or m.kdone): R.bad('start', m, 'its port says %s' % m.port)
    t1 = time.monotonic()
    slow = rng.random() < .2; nxt = []
    m = rng.choice(ms)
    if m.kind in 'va' and m.dur() > 20 and m.xd is None and rng.random() < .5:      # a journey through one long content
        early = rng.random() < .4       # asked again and again before the content can be heard or seen
        nxt = ([('start', m)] if m.st == 'idle' else [('stop', m), ('start', m)] if early else []) + ([(x, m) for x in rng.choice([['time', 'time'], ['time', 'time', 'time'], ['speed', 'time', 'time'], ['time', 'speed', 'time'], ['speed', 'speed'], ['time', 'pause', 'resume', 'time']])] if early else []) + [('first', m)]
        for _ in range(3): nxt += [(rng.choice(['time', 'speed', 'reltime', 'speed']), m)] + [('wait', m)] * rng.choice([0, 1, 2]) + [('pace', m)] * rng.choice([0, 1])
    for k in range(rng.choice([6, 10, 16]) + len(nxt)):
        if time.monotonic() - t1 > 8: break
        m = rng.choice(ms)
        if nxt: op, m = nxt.pop(0)
        else: op = rng.choice(['wait', 'wait', 'pause', 'resume', 'stop', 'start', 'time', 'time', 'reltime', 'speed', 'sound', 'visible', 'freeze', 'odd', 'pace', 'listen', 'listen', 'advance', 'still', 'first'])
        if not nxt and m.kind in 'as' and m.st == 'play' and m.xd is None and m.dur() > 20 and rng.random() < .4:
            nxt = [(x, m) for x in rng.choice([['sound', 'listen'], ['pause', 'sound', 'resume', 'listen'], ['pause', 'wait', 'sound', 'resume', 'listen'], ['stop', 'sound', 'start', 'listen'], ['resume', 'sound', 'sound', 'listen']])]
        log.append([op, m.id, round(time.monotonic() - R.t0, 3), m.st])
        if op == 'wait':
            for _ in range(rng.choice([1, 3, 8])): R.step(rng.choice([5, 30, 60]) if not slow else 150)
        elif op in ('pause', 'resume', 'stop', 'start'):
            if op == 'start' or m.st != 'idle':
                R.act(m, op)
        elif m.st == 'idle' and op != 'sound': continue
        elif op == 'odd':
            if rng.random() < .3 and m.kind in 'va':
                m.wild = True
                if rng.random() < .5: R.setp(m, 'speed', rng.choice(['0', '-1', '-0.5', '1e-9', '1e6', 'x', '', 'nan', '-inf', '0.01']))
                else: R.setp(m, 'time', rng.choice(['', 'indefinite', '-1s', '+0s', '-1e9s', '1e9s', '1e30s', '00:00:01', '+', '-', 'x', '0s', 'nans']))
                R.ops.add('odd'); w.count('odd values')
        elif m.wild and op in ('time', 'reltime', 'speed'):
            R.setp(m, 'speed' if op == 'speed' else 'time', rng.choice(['1', '2', '-1', '0']) if op == 'speed' else ('+' if op == 'reltime' else '') + rng.choice(['0s', '.3s', '2s']))
        elif m.wild and op in ('first', 'pace', 'advance', 'still', 'listen'): continue
        elif op == 'time' and m.kind in 'va':
            lim = m.dur()
            T = rng.choice([0, .5, 1., 2., lim * .2]) if nxt else rng.choice([0, .1, .5, 1., lim * .5, lim * .9, lim - .05 if lim > .05 else 0, lim + 1])
            if T > lim: m.forced = True
            R.setp(m, 'time', '%.3fs' % T)
            R.seek(m, T, T)
            R.wall()
            R.ops.add('time'); w.count('seeks')
        elif op == 'reltime' and m.kind in 'va' and m.ready and not m.jump:
            x = rng.choice([.2, .5, 1., 5.]); sg = rng.choice('+-')
            lo = (m.idx or 0) / m.fps
            R.wall()
            R.setp(m, 'time', '%s%gs' % (sg, x))
            if sg == '+':
                if m.hi + x >= m.dur() - .1: m.forced = True
                R.seek(m, lo + x - .3, m.hi + x)
            else: R.seek(m, max(0, lo - x - .3), max(0, m.hi - x))
            R.wall(); R.ops.add('reltime'); w.count('relative seeks')
        elif op == 'speed' and m.kind in 'va':
            v = rng.choice([.5, 1., 2., 4.])
            R.wall()
            m.rate = max(m.rate if not m.ready else 1., v)
            R.setp(m, 'speed', '%g' % v); R.wall()
            if m.idx is None or not m.ready: m.lo = 0
            elif m.jump: m.lo = min(m.lo, m.idx)
            else: m.lo = m.idx
            m.lo = max(0, m.lo - 2 - int(.2 * m.fps))
            m.jump = True; m.pend = []; m.want = v
            R.ops.add('speed'); w.count('changes of speed')
            if not nxt and rng.random() < .6: nxt = [('wait', m), ('pace', m)] if rng.random() < .6 else [('time', m), ('wait', m), ('pace', m)]
        elif op == 'sound' and m.kind != 'z':
            if m.kind == 's' and rng.random() < .4: n, v = 'freq', rng.choice(FREQ); m.snd['freq'] = v      # (audiotestsrc itself cannot change its wave while it is being set up)
            else: n, v = m.noise(rng)
            R.setp(m, n, v); R.ops.add('sound'); w.count('sound levels')
        elif op == 'visible' and m.kind == 'v':
            m.vis = rng.random() < .6
            R.setp(m, 'visible', 'true' if m.vis else 'false')
        elif op == 'freeze' and m.kind in 'va':
            if m.hi < m.dur() - .4:
                m.frozen = rng.random() < .5
                R.setp(m, 'freeze', 'true' if m.frozen else 'false')
        elif op == 'listen' and m.kind in 'as' and m.st == 'play' and m.xd is None and (m.kind == 's' or m.dur() > 20 and m.hi < 15 and not m.forced):
            want, f = m.sound()
            def same():
                if m.st != 'play': return True
                if R.heard is None or R.heard[2] < 4096: return False
                if want and any(abs(x - y) > .004 + .04 * y for x, y in zip(R.heard[0], want)): return False
                return f is None or abs(R.heard[1] - f) < 6 + .02 * f
            try: R.until(m, same, 'level', None)
            except Violation as v:
                if v.key != 'level': raise
                R.bad('level', m, 'heard are %s, not levels %s and frequency %s, with %s' % (R.heard, want, f, m.snd))
            w.count('levels heard' if want else 'sounds heard at all')
            if f: w.count('frequencies heard')
            if m.kind == 's' and m.st == 'play':
                lit = lambda: any(int(c[4]) - int(c[2]) >= 0 and c[1] != 'ff000000' and int(c[2]) >= m.j * 60 and int(c[4]) <= m.j * 60 + 50 for c in s.cmd('colors') if c[0] == 'C')
                R.until(m, lambda: m.st != 'play' or lit(), 'nothing', 'it has shown nothing for %g s' % LIMIT)
                w.count('scopes seen')
        elif op == 'first' and m.kind in 'va' and m.st == 'play' and (m.vis if m.kind == 'v' else m.audible()) and m.idx is None and m.xd is None and not m.forced and not m.t0 and not m.jump:
            R.until(m, lambda: m.idx is not None or m.st != 'play', 'nothing', 'no frame has been shown for %g s' % LIMIT)
            w.count('waits for the first frame')
        elif op == 'advance' and m.kind in 'va' and m.st == 'play' and (m.vis if m.kind == 'v' else m.audible()) and m.idx is not None and not m.jump and m.xd is None and m.idx < m.n - m.fps * 4 and not m.forced:
            i0 = m.idx
            R.until(m, lambda: m.idx != i0 or m.st != 'play', 'stall', 'frame %d has been shown for %g s although it is playing' % (i0, LIMIT))
            w.count('waits for the next frame')
        elif op == 'pace' and m.kind in 'va' and m.st == 'play' and (m.vis if m.kind == 'v' else m.audible()) and m.idx is not None and m.ready and m.xd is None and not m.forced and not (m.jump and m.pend):
            ms_, best = rng.choice([10, 25, 150]), None
            for k in range(6):
                if m.st != 'play' or m.idx + m.fps * 8 * max(1, m.want) >= m.n or best is not None and best[0]: break
                a, t = m.idx, time.monotonic()
                while time.monotonic() - t < 1.2: R.step(ms_)
                t = time.monotonic() - t; p = (m.idx - a) / float(m.fps)
                best = .75 * m.want * t - (.15 + 1. / m.fps) <= p <= 1.25 * m.want * t + (.15 if m.kind == 'v' else .5) + 1. / m.fps, a, m.idx, t
            if best is not None and m.st == 'play':
                if not best[0]: R.bad('pace', m, 'it goes from %d to %d of %g frames per second in %.2f s, at the speed %g' % (best[1:3] + (m.fps,) + best[3:] + (m.want,)))
                w.count('paces measured')
        elif op == 'still' and m.kind in 'va' and m.st == 'pause' and not m.jump and m.idx is not None:
            # drain what was queued before the pause, then nothing may change
            q, t = 0, time.monotonic()
            while q < 12 and time.monotonic() - t < LIMIT:
                i0 = m.idx, R.played; R.step(10 if m.kind == 'v' else 40); q = q + 1 if (m.idx, R.played) == i0 or m.kind == 'v' and m.idx == i0[0] else 0
            if m.st == 'pause':
                i0 = m.idx if m.kind == 'v' else R.played
                for _ in range(8): R.step(int(1500. / m.fps) // 8 + 10)
                i1 = m.idx if m.kind == 'v' else R.played
                if m.st == 'pause' and i1 != i0: R.bad('pause', m, 'it goes from %d to %d while it is paused' % (i0, i1))
                w.count('pauses observed')
    # what was sought is seen; contents that end end the presentation
    for m in ms:
        if m.st == 'pause' and rng.random() < .5: R.act(m, 'resume')
    for m in ms:
        if m.wild: continue
        if m.kind in 'va' and m.st == 'play' and (m.vis if m.kind == 'v' else m.audible()) and m.jump and m.pend and not m.forced and m.xd is None and m.pend[-1] < m.dur() - .5:
            T = m.pend[-1]
            R.until(m, lambda: not m.jump or m.st != 'play', 'seek', 'no frame at %.2f s or after has been shown in %g s' % (T, LIMIT))
            w.count('seeks seen')
        if m.kind in 'va' and m.st == 'play' and m.xd is None and m.dur() < 3 and not m.frozen and (m.kind == 'a' or m.rate >= 1):
            R.until(m, lambda: m.st != 'play', 'endless', 'its content has ended, its presentation has not within %g s' % LIMIT)
        elif m.kind in 'va' and m.st == 'play' and m.frozen and .4 < m.dur() < 3 and (m.vis if m.kind == 'v' else m.audible()) and not m.forced and m.xd is None and not m.jump:
            R.until(m, lambda: m.idx is not None and m.idx >= m.n - 2 or m.st != 'play', 'frozen', 'the last frame has not been shown in %g s' % LIMIT)
            for _ in range(10): R.step(30)
            if m.st != 'play': R.bad('frozen', m, 'it ended although it is frozen')
            if m.idx is None or m.idx < m.n - 2: R.bad('frozen', m, 'frame %s is shown at the end' % m.idx)
            w.count('frozen')
    if len(R.ops) >= 2: w.seen(doc, log)
    w.sample(dict(document=doc, operations=log))
    if rng.random() < .5:
        for m in ms: m.cause = 'stop'
        s.cmd('stop')
    s.cmd('del')
    t = time.monotonic()
    while True:
        s.cmd('pump', 20)
        n = fds(s)
        if n <= w.base or time.monotonic() - t > 5: break
    if n > w.base: raise Violation('descriptors', 'the process has %d open files, %d before the presentation: %s' % (n, w.base, names(s)))
    if s.r('leak') not in (['0'], ['-1']): raise Violation('leak', 'memory leaked: ' + '\n'.join(s.stderr().split('\n')[-60:]))
    if s.r('players') not in (['0'], None): raise Violation('players', 'players remain: %s' % s.r('players'))
    c = [l for l in s.stderr().split('\n') if CRIT.search(l)]
    if c: raise Violation('critical ' + re.sub(r'\(.*?:\d+\)|[\d:.]+: ', '', c[0])[:200], '\n'.join(c[:5]))
