from engine import *
import glob, re
ID = 'C09'
QUICK, THOROUGH = 3000, 60000
RULE = ('(a) random documents with every feature, (b) the same with hostile values put into random attributes, (c) the repository\'s own NCL documents; each under a '
        'random history of all public operations (requests on any event, direct transitions, assignments with and without duration, ticks of any size, keys, '
        'resizes, redraws, option changes, restarts, failing loads) with redraws in between, under ASan+UBSan, assertions and GLib warnings on; non-trivial when '
        'the presentation started and at least five operations were applied')
HOST = ['', ' ', '-1', '99999999999', '1e400', 'nan', 'inf', '-0', '0x10', '100%', '-50%', '1000000%', '50', '%', '1,2,3,4', '1,2', ',,,', 'abc', '$', '$m1.x', '$x', 'true',
        'é', '\x7f', '0.0000001', '2147483647', '2147483648', '-2147483649', '1:2:3', '99:99:99s', 's', '-5s', '0s', '18446744073709551616', '1s', 'red', '#ff', '#12345678',
        'file:///nonexistent', 't.txt', 'i.png', 'x' * 300, '%s%n', '(', ';', '0,0,-5,-5', '10%,10%,200%,200%', '40000', '1e9', '0.5', '1.5s', 'indefinite', 'justified', 'bottom']
PROPS = ['left', 'top', 'right', 'bottom', 'width', 'height', 'bounds', 'location', 'size', 'transparency', 'zIndex', 'zOrder', 'visible', 'background', 'backgroundColor',
         'explicitDur', 'duration', 'fontColor', 'fontSize', 'fontFamily', 'horzAlign', 'vertAlign', 'fontStyle', 'fontWeight', 'fontVariant', 'bgColor', 'focusIndex', 'moveUp',
         'uri', 'type', 'time', 'speed', 'rate', 'balance', 'bass', 'treble', 'volume', 'soundLevel', 'mute', 'debug', 'freq', 'wave', 'x', 'transIn', 'transOut', 'focusBorderColor',
         'focusBorderTransparency', 'focusBorderWidth', 'currentTime', 'currentFocus', 'service.currentFocus', 'rgbChromakey', 'freeze', 'system.language', 'user.name']
KEYS2 = KEYS + ['', 'F1', 'CURSOR_', 'é', 'x' * 200]
DOCS = None
ALLOWED = re.compile(r"bad value|cannot load|bad time|missing|invalid|Invalid|failed to set playbin|bad horizontal|unknown vertical|bad |cannot|expected|must|out of range|unknown|failed|No such|error", re.I)
MUT = re.compile(r'\b(value|begin|end|delay|duration|left|top|right|bottom|width|height|explicitDur|focusIndex|zIndex|src|type|subtype|dur|key|label|repeat)="([^"]*)"')

def esc(v): return v.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace('\x7f', '&#127;')

def setup(w):
    global DOCS
    # private copy of the sample documents, so that nothing can touch the tree
    import shutil
    dst = os.path.join(w.dir, 'ncl')
    def ign(d, names): return [n for n in names if n.endswith(('.mp4', '.ogv', '.ogg', '.mp3', '.avi', '.mpg')) or n == 'samples' and False]
    shutil.copytree(REPO + '/tests-ncl', dst, ignore=ign)
    docs = sorted(glob.glob(dst + '/**/*.ncl', recursive=True) + glob.glob(dst + '/**/*.lua', recursive=True))
    w.docs = [d for d in docs if not re.search(r'vid|audio|html|ncl360|streambuf', d)]

def diagnosed(w, e):
    """a message that ends the process because of a bad value is by design, if it says what is wrong"""
    return e.kind == 'gerror' and ALLOWED.search(e.sig) and not re.search(r'reached|assert', e.sig)

def objs_of(s):
    d = None
    out = {}
    for t in s.cmd('state'):
        if t[0] == 'S': out[dec(t[1])] = t
    return sorted(out)

def evs(dump):
    return [(o['id'], e['t'], e['id']) for o in dump['objects'] for e in o['events']]

def case(w, i, rng):
    kind = rng.random()
    s = w.session()
    if kind < .2 and w.docs:
        path = rng.choice(w.docs)
        txt = open(path, errors='surrogateescape').read()
    else:
        knobs = rng.choice([dict(), dict(real_props=.9, props=.9), dict(depth=4, ctx=.5, switch=.3), dict(focus=.8, sel=.8), dict(refer=.7, refer_in_switch=.4), dict(area=.9, expdur=.6),
                            dict(srcs=['t.txt', 'i.png', 's.lua', 'none.png'], content=.9), dict(dur=.9, delay=.5, real_props=.9)])
        d = Gen(rng, **knobs).doc()
        txt = d.xml()
        if kind < .4:
            ms = list(MUT.finditer(txt))
            for m in sorted(rng.sample(ms, min(len(ms), rng.randint(1, 2))), key=lambda m: -m.start()):
                txt = txt[:m.start(2)] + esc(rng.choice(HOST)) + txt[m.end(2):]
        path = w.write('d.ncl', txt)
    ops = []
    w.note = dict(document=txt, operations=ops)
    W, H = rng.choice([(320, 240), (1, 1), (800, 600), (100, 7)])
    def do(*a):
        ops.append(list(a)); del ops[:-60]
        w.count('op-' + a[0])
        return s.cmd(*a)
    try:
        do('new', W, H, rng.choice(['', 'red', '#00ff00']), rng.random() < .15, 0, 0)
        ev = []
        def on(t):
            if t[0] == 'J': ev.extend(evs(spec.decode(json.loads(' '.join(t[1:])))))
        ops.append(['start', path])
        r = s.cmd('start', path, 1, on=on)
        r = [t for t in r if t[0] == 'R'][-1]
        if dec(r[1]) == '0':
            if not dec(r[2]) and not ev: raise Violation('silent failure', 'start fails without a message')
            w.count('refused-documents')
        n = rng.randint(5, 35)
        names = sorted(set(e[0] for e in ev)) or ['none']
        done = 0
        for _ in range(n):
            k = rng.random()
            if k < .28 and ev:
                e = rng.choice(ev)
                do('act', e[0], e[1], e[2], rng.choice(TRS), rng.choice(HOST if rng.random() < .05 else NUMV.get(e[2], CUSTV)) if e[1] == 'A' else '')
            elif k < .33 and ev:
                e = rng.choice(ev); do('trans', e[0], e[1], e[2], rng.choice(TRS))
            elif k < .43: 
                pn = rng.choice(PROPS)
                vs = HOST if rng.random() < .04 else NUMV.get(pn, ['50%', '10', '0', '1', '0.5', ''])
                do('setprop', rng.choice(names), pn, rng.choice(vs), rng.choice([0, 0, 1, SEC, 10 * SEC, 1 << 62]))
            elif k < .66: do('tick', rng.choice([0, 1, SEC]), rng.choice(TICKS + [1 << 50, 1 << 61]), rng.choice([0, 1, 40]))
            elif k < .76: do('key', rng.choice(KEYS2), rng.random() < .6)
            elif k < .80: do('resize', rng.choice([1, 3, 320, 1000, 4096, 40000]), rng.choice([1, 240, 1000, 4096]))
            elif k < .93: do('draw', rng.choice([1, 64, 320]), rng.choice([1, 64, 240]))
            elif k < .94: do('stop')
            elif k < .95:
                ops.append(['start', path]); ev = []; s.cmd('start', path, 1, on=on); names = sorted(set(e[0] for e in ev)) or names
            elif k < .96: s.cmd('start', os.path.join(w.dir, 'nonexistent.ncl'))
            elif k < .97: do('tostring')
            elif k < .98: do('focused'); do('status'); do('snap')
            elif k < .99: do('setb', 'debug', rng.random() < .5)
            else: do('sets', 'background', rng.choice(['red', '', '#010203']))
            done += 1
        do('draw', 32, 32)
        do('del')
        w.seen(txt, ops); w.sample(dict(document=txt[:2000], operations=ops[:20])); w.count('completed')
    except Crash as e:
        if diagnosed(w, e):
            w.count('diagnosed: ' + re.sub(r'[0-9.-]+', '_', e.sig)[:60]); w.drop(); raise Skip('diagnosed value')
        raise
