from engine import *
from vt import Session, Crash
from spec import times
import re
from urllib.parse import unquote
ID = 'C26'
QUICK, THOROUGH = 1500, 40000
CHUNK = 10
RULE = ('the ginga program itself, on a window system of our own: random options in all spellings, 1 to 4 files (presentations that go on for ever, end by themselves, end on the press or the release of a key; files that are '
        'missing, unreadable or invalid), named in several ways, with ticks of irregular frame times, presses and releases of named, special and unnamed keys, resizes, redraws, Esc, F10, F11, the window closed; every call '
        'that reaches the presentation engine is compared with the one the event means; non-trivial when a presentation had at least two ticks and a key')

H = '<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head>%s</head><body id="b"><port id="p" component="m"/>%s</body></ncl>'
CONN = ('<connectorBase><causalConnector id="k"><connectorParam name="key"/><compoundCondition operator="or"><simpleCondition role="%s" key="$key"/></compoundCondition><simpleAction role="stop"/></causalConnector></connectorBase>')
def doc(kind, r):
    """(text, dict of what ends it)"""
    if kind == 'loop': return H % ('', '<media id="m"/>'), {}
    if kind == 'dur':
        d = r.choice([SEC, 2 * SEC, SEC // 2, SEC // 100, 7 * SEC])
        return H % ('', '<media id="m"><property name="explicitDur" value="%s"/></media>' % times(d)), dict(dur=d)
    if kind in ('press', 'release'):
        k = r.choice(['RED', 'GREEN', 'ENTER', '5', 'a', 'CURSOR_UP', '#', 'HOME'])
        return H % (CONN % ('onSelection' if kind == 'press' else 'onEndSelection'),
                    '<media id="m"/><link id="l" xconnector="k"><bind role="%s" component="m"><bindParam name="key" value="%s"/></bind><bind role="stop" component="m"/></link>' % ('onSelection' if kind == 'press' else 'onEndSelection', k)), dict(key=k, kind=kind)
    return r.choice([H % ('', ''), '', 'text', '<ncl id="x"><body id="b"><port id="p" component="none"/></body></ncl>', '<ncl id="x"><body id="b"><foo/></body></ncl>']), None

KEYS = {0x2a: '*', 0x23: '#', 0xff0d: 'ENTER', 0xffbe: 'RED', 0xffbf: 'GREEN', 0xffc0: 'YELLOW', 0xffc1: 'BLUE', 0xffc2: 'INFO', 0xff54: 'CURSOR_DOWN', 0xff51: 'CURSOR_LEFT', 0xff53: 'CURSOR_RIGHT', 0xff52: 'CURSOR_UP',
        0xff50: 'HOME', 0xff57: 'END', 0xff08: 'BACKSPACE', 0xff09: 'TAB', 0xffff: 'DELETE', 0x20: 'SPACE', 0xffe1: 'SHIFT_L', 0xffc3: 'F6', 0xffc4: 'F7', 0xffc9: 'F12', 0x2b: 'PLUS', 0xe9: 'EACUTE', 0xff8d: 'KP_ENTER', 0xffb5: 'KP_5', 0xb5: 'MU', 0xe6: 'AE', 0xff7f: 'NUM_LOCK', 0x7c4: 'GREEK_DELTA', 0x1000394: 'U+0394'}
for c in 'abcxyzABZ0123456789': KEYS[ord(c)] = c
ESC, F10, F11 = 0xff1b, 0xffc7, 0xffc8
VALS = list(KEYS)
BY = {v: k for k, v in KEYS.items()}

class Cli:
    def __init__(self, w, argv):
        self.s = Session('cli', argv=argv, cwd=w.dir, timeout=40)
        self.rc = self.lost = None
    def read(self):
        """records up to the next stop, or to the end of the program"""
        out = []
        deadline = time.monotonic() + self.s.timeout
        while True:
            l = self.s._line(deadline)
            if l is None:
                self.rc = self.s.p.wait(10)
                err = self.s.stderr()
                if self.rc < 0 or self.rc == 99 or 'ERROR: AddressSanitizer' in err or 'runtime error:' in err: raise Crash(self.rc, err, '')
                if CRITICAL.search(err): raise Violation('critical', CRITICAL.search(err).group(0))
                return out
            if l == '.': return out
            out.append([unquote(x) if x != '%e' else '' for x in l.split(' ')])
    def do(self, *a):
        self.s.p.stdin.write((' '.join(map(str, a)) + '\n').encode()); self.s.p.stdin.flush()
        return self.read()
CRITICAL = re.compile(r'[^\n]*CRITICAL \*\*[^\n]*')

def case(w, i, r):
    # files
    files = []
    ugly = lambda: r.choice(['f', 'f g', 'caf\u00e9', '-x', 'a%20b', 'n#1', '.h'])
    for k in range(r.choice([1, 1, 2, 2, 3, 4, 8])):
        kind = r.choice(['loop', 'loop', 'dur', 'dur', 'press', 'release', 'bad', 'missing'])
        name = '%s%d.ncl' % (ugly(), k)
        if kind == 'missing':
            info = None
            if os.path.exists(os.path.join(w.dir, name)): os.unlink(os.path.join(w.dir, name))
        else:
            text, info = doc(kind, r); w.write(name, text)
        p = r.choice([name, './' + name, os.path.join(w.dir, name)])
        files.append((p, kind, info))
        if r.random() < .15: files.append((p, kind, info))
    dash = any(p.startswith('-') for p, _, _ in files)
    # options
    o = dict(W=800, H=600, d=0, x=0, b='', f=0)
    args = []
    bad = None
    for opt in r.sample('sbdxf', r.randint(0, 4)):
        if opt == 's':
            o['W'], o['H'] = r.choice([(320, 240), (1, 1), (40000, 30), (70, 2147483647), (100000, 99999), (1920, 1080), (r.randint(1, 3000), r.randint(1, 3000))])
            v = '%dx%d' % (o['W'], o['H'])
            if r.random() < .12: v = bad = r.choice(['0x0', '-5x10', '10x-5', '10x0', 'x', '10', '10x', 'x10', 'axb', '-1x-1', '10*10'])
            args += r.choice([['-s', v], ['--size', v], ['--size=' + v]])
        elif opt == 'b': o['b'] = r.choice(['red', '#00ff00', '#123', 'black']); args += r.choice([['-b', o['b']], ['--background', o['b']], ['--background=' + o['b']]])
        elif opt == 'f': o['f'] = 1; args += [r.choice(['-f', '--fullscreen'])]
        else: o[opt] = 1; args += [r.choice({'d': ['-d', '--debug'], 'x': ['-x', '--experimental']}[opt])]
    paths = [p for p, _, _ in files]
    none = r.random() < .02
    if none: paths = []
    if not dash and r.random() < .3 and paths:
        k = r.randint(0, len(paths)); argv = paths[:k] + args + paths[k:]
    else: argv = args + (['--'] if dash or r.random() < .1 else []) + paths
    log = []
    w.note = dict(arguments=argv, kinds=[k for _, k, _ in files], events=log)
    c = Cli(w, argv)
    try:
        got = c.read()
        play(w, r, c, got, o, bad, none, files, log)
    finally:
        c.s.kill(); c.s.__exit__()

def play(w, r, c, got, o, bad, none, files, log):
    err = c.s.stderr
    def fail(k, m): raise Violation(k, '%s; records %s' % (m, got[-6:]))
    if bad or none:
        if c.rc is None: fail('options', 'the program starts although %s' % ('its size is %r' % bad if bad else 'no file is given'))
        if bad and bad not in err(): fail('options', 'no message names the wrong size %r: %r' % (bad, err()[-300:]))
        if none and not err().strip(): fail('options', 'no message tells that there is no file')
        w.count('refused command lines'); return
    def take(rec):
        return [g for g in rec if g[0] in ('create', 'start', 'stop', 'key', 'tick', 'resize', 'redraw', 'bool', 'int', 'string', 'main', 'quit', 'delete', 'bad', 'eof')]
    if any(g[0] == 'bad' for g in got): fail('window', 'a loop is left that is not entered')
    cr = [g for g in got if g[0] == 'create']
    want = ['create', str(o['W']), str(o['H']), str(o['d']), '0', str(o['x']), '0', o['b']]
    if cr != [want]: fail('options', 'the presenter gets %s, expected %s' % (cr, want))
    if ['window', 'size', str(o['W']), str(o['H'])] not in got: fail('options', 'the window is not made %dx%d' % (o['W'], o['H']))
    if (['window', 'full'] in got) != bool(o['f']): fail('options', 'full screen')
    full, debug, now, counter = o['f'], o['d'], r.choice([0, 1000, 10 ** 9, 10 ** 12]), r.choice([0, 0, 0, 1, 500])
    fails, n, keys, tk = 0, 0, 0, 0
    size = (o['W'], o['H'])
    waiting = False                       # for the window's loop to be entered
    playing = False                       # whether the last presentation was left going on
    shown = False
    while True:
        # records up to the next main loop, or to the end
        for g in take(got):
            if g[0] == 'start':
                if playing: fail('not stopped', 'file %d starts while the one before is going on' % n)
                if n >= len(files): fail('files', 'more files are started than given')
                p, kind, info = files[n]
                if g[1] != p: fail('files', 'file %d is %r, started %r' % (n, p, g[1]))
                if (g[2] == '1') != (info is not None): fail('files', '%r (%s): start gives %s' % (p, kind, g[2]))
                n += 1; w.count('files')
                if g[2] == '0':
                    fails += 1; w.count('files refused')
                    if len(files) > 1 and not re.search(r': %s: \S' % re.escape(p), err()): fail('message', '%r is not named on failure: %r' % (p, err()[-300:]))
                    if not re.search(r': \S', err()): fail('message', 'no message for %r' % p)
                else: playing = waiting = True
            elif g[0] in ('stop', 'delete'):
                if waiting: fail('files', 'file %d is started and stopped, its window never lives' % n)
                playing = False
            elif g[0] == 'eof': fail('ends', 'the program does not end')
            elif g[0] == 'main':
                if not playing: fail('files', 'the window is shown without a presentation')
                waiting = False
            elif g[0] not in ('create', 'quit'): fail('calls', 'unexpected %s' % (g,))
        shown = shown or ['window', 'shown'] in got
        if c.rc is not None:
            if waiting: fail('files', 'the window of file %d never lives' % n)
            if n != len(files): fail('files', 'the program ends after %d of %d files' % (n, len(files)))
            if c.rc != fails: fail('exit status', 'exit status %d, %d files failed' % (c.rc, fails))
            break
        if not shown: fail('window', 'the window is not shown')
        # a presentation
        _, kind, info = files[n - 1]
        first, last, lastc = None, None, -1
        nt = 0
        down = set()
        left = r.randint(2, 40)
        while True:
            left -= 1
            q = r.random()
            if c.lost is None and r.random() < .1 or not left and r.random() < .1: e = ('leak',)
            elif left <= 0: e = ('key', 'press', ESC)
            elif q < .5:
                if nt: now += r.choice([0, 16667, 16666, 40000, 100000, 1000000, 2500000, 1, r.randint(1, 200000)]); counter += r.choice([1, 1, 1, 2])
                elif tk: now += r.choice([0, 16667, 5000000]); counter += 1
                e = ('tick', now, counter); tk += 1
            elif q < .8:
                if 'key' in (info or ()) and r.random() < .35: v = BY[info['key']]
                else: v = r.choice(VALS)
                if r.random() < .05: v = 0
                k = 'release' if v in down and r.random() < .8 or r.random() < .1 else 'press'
                (down.discard if k == 'release' else down.add)(v)
                e = ('key', k, v, r.choice([0, 0, 1, 4, 8, 16, 17, 2, 5, 0x100]))     # shift, control, alt, num lock, caps lock, a button
            elif q < .84: e = ('key', r.choice(['press', 'release']), F10)
            elif q < .88: e = ('key', r.choice(['press', 'release']), F11)
            elif q < .93: e = ('size', size[0] if r.random() < .3 else r.randint(1, 2000), size[1] if r.random() < .3 else r.randint(1, 1500))
            elif q < .965: e = ('draw',)
            elif q < .97: e = ('leak',)
            elif q < .98: e = ('key', 'release', ESC)
            elif q < .983: e = ('close',)
            else: e = ('key', 'press', ESC)
            log.append(e)
            got = c.do(*e)
            calls = take(got)
            w.count('events')
            if e[0] == 'leak':
                n0 = lost(err()) if got[0][1] != '0' else 0
                if c.lost is None: c.lost = n0          # (texts of arguments that the options parser drops, once)
                elif n0 > c.lost: raise Violation('leak', '%d bytes are lost, %d at the beginning: %s' % (n0, c.lost, err()[-2500:]))
                w.count('leak checks'); continue
            if e[0] == 'close':
                if c.rc is None: fail('close', 'the program goes on after its window is closed')
                if c.rc != 0: fail('close', 'exit status %d after the window is closed' % c.rc)
                w.count('windows closed')
                if nt > 1 and keys: w.seen(log)
                return
            end = False
            if e[0] == 'tick':
                if not calls or calls[0][0] != 'tick': fail('ticks', 'the frame at %d us does not reach the presentation (%d of file %d)' % (e[1], nt, n))
                if first is None: first = last = e[1]
                t = calls[0]
                if int(t[2]) != (e[1] - last) * 1000: fail('ticks', 'frame at %d us after one at %d us: the presentation is told %s ns' % (e[1], last, t[2]))
                if int(t[1]) != (e[1] - first) * 1000: fail('ticks', 'frame at %d us of a presentation begun at %d us: told %s ns in all' % (e[1], first, t[1]))
                if int(t[3]) <= lastc and lastc >= 0: fail('ticks', 'frame number %s follows %d' % (t[3], lastc))
                lastc = int(t[3]); last = e[1]; nt += 1
                end = t[4] == '0'
                if not end and ['window', 'damage'] not in got: fail('ticks', 'the frame is not drawn')
                calls = calls[1:]
                w.count('ticks')
            elif e[0] == 'key' and e[2] in (ESC, F10, F11):
                if e[2] == F10 and e[1] == 'press':
                    debug = 1 - debug
                    if not calls or calls[0] != ['bool', 'debug', str(debug)]: fail('keys', 'F10 does not switch debugging to %d' % debug)
                    calls = calls[1:]
                elif e[2] == F11 and e[1] == 'press':
                    full = 1 - full
                    if [g for g in got if g[0] == 'window' and g[1] in ('full', 'unfull')] != [['window', 'full' if full else 'unfull']]: fail('keys', 'F11 does not switch full screen to %d' % full)
                elif e[1] == 'press': end = True; w.count('presentations ended by Esc')
                if e[1] == 'release' and any(g[0] == 'window' for g in got): fail('keys', 'a release changes the window')
            elif e[0] == 'key' and e[2] != 0:
                k = [g for g in calls[:1] if g[0] == 'key']
                if not k or k[0][1:3] != [KEYS[e[2]], '1' if e[1] == 'press' else '0']: fail('keys', '%s of key %s (%#x) reaches the presentation as %s' % (e[1], KEYS[e[2]], e[2], k))
                end = k[0][3] == '0'
                calls = calls[1:]; keys += 1
                w.count('keys')
            elif e[0] == 'size':
                if size == e[1:] and not calls: calls = [['resize', str(e[1]), str(e[2])]]  # nothing to tell
                size = e[1:]
                if calls[:1] != [['resize', str(e[1]), str(e[2])]]: fail('resize', '%s reaches the presentation as %s' % (e, calls[:1]))
                if ['window', 'swallowed'] in got: fail('resize', 'the new size is kept from the window')
                calls = calls[1:]
            elif e[0] == 'draw':
                if calls[:1] != [['redraw', '1']]: fail('draw', 'a redraw gives %s' % calls[:1])
                calls = calls[1:]
            quit = [g for g in calls if g[0] == 'quit']
            if end != bool(quit): fail('ends', ('%s: the presentation has ended, the window goes on' if end else '%s: the window loop is left, the presentation has not ended') % (e,))
            if end:
                if e[0] != 'key' or e[2] != ESC: w.count('presentations ended by themselves'); playing = False
                got = [g for g in got if g[0] not in ('tick', 'key')]
                break
            if calls: fail('calls', '%s causes also %s' % (e, calls))
            if c.rc is not None: fail('ends', 'the program ends on %s' % (e,))
        w.count('presentations')
    if nt_keys(log): w.seen(log); w.sample(dict(files=[(p, k) for p, k, _ in files], events=log[:15]))

def lost(e):
    m = re.findall(r'SUMMARY: AddressSanitizer: (\d+) byte', e)
    return int(m[-1]) if m else 0
def nt_keys(log): return sum(e[0] == 'tick' for e in log) > 1 and any(e[0] == 'key' for e in log)
