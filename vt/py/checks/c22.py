from run import *
import os, re, random
from urllib.parse import quote, unquote_to_bytes
ID = 'C22'
QUICK, THOROUGH = 12000, 400000
PER_SESSION = 150
RULE = ('path and URI functions on generated names (blanks, percent signs, non-ASCII, dots, repeated and trailing slashes, drive letters, schemes) against a re-implementation from their description and '
        'their algebraic laws, with the process in different directories; reading of files of odd names and contents (NUL, 300 kB, empty, missing, directories); documents in directories of odd names, '
        'named in several ways, whose media, fonts and (nested) imports name files relative to them, with decoy files of the same names in the current directory: the file that is reached is told by its '
        'content; everything under the sanitizers. Non-trivial: cases with at least one judged call')

B = lambda s: s.encode('utf-8', 'surrogateescape')
CH = ['a', 'b', 'C', '0', '9', '-', '_', '~', '+', '.', ' ', ' ', '%', '%41', '%2', '\u00e9', '\u65e5', '\U0001f600', '&', '=', ',', ';', '!', '@', '(', ')', "'", '$', '[', ']', '{', '}', '^', '`', '|', '\\', '"', '<', '>', '*']
def seg(r, chars=CH):
    while True:
        s = ''.join(r.choice(chars) for _ in range(r.randint(1, 7)))
        if s not in ('.', '..') and not s.startswith('~'): return s
def path(r):
    k = r.random()
    if k < .12: return r.choice(['', '/', '.', '..', './', '//', '///', '/.', '/..', 'a', '/a', 'a/', 'a//b', '//a', 'a/../b', '~/x', 'C:', 'C:\\a', 'c:/x', 'a:b', 'http:', 'http://', 'ab:', 'a+b:c', '1a:b', '-a:b', ':a', 'a b:c', '\u00e9b:c', 'file:a', 'x' * 5000])
    s = ''
    if r.random() < .4: s = r.choice(['/', '/', '//', './', '../'])
    for i in range(r.randint(1, 4)):
        if i: s += r.choice(['/', '/', '/', '//', '/./', '/../', '///'])
        s += seg(r)
    if r.random() < .2: s += r.choice(['/', '//'])
    if r.random() < .1: s = r.choice(['http:', 'file:', 'a.b-c+1:', 'x:', 'XY:', '9:', 'a_b:']) + s
    return s

def base(s):
    if s == '': return '.'
    t = s.rstrip('/')
    return t.rsplit('/', 1)[-1] if t else '/'
def dir_(s):
    i = s.rfind('/')
    if i < 0: return '.'
    while i > 0 and s[i] == '/': i -= 1
    return s[:i + 1]
def build(a, b):
    if not a: return b
    if not b: return a
    if not a.strip('/'): return a + b.lstrip('/')
    return a.rstrip('/') + '/' + b.lstrip('/')
def flat(s): return re.sub('/+', '/', s)
def isuri(s): return bool(re.match(r'[A-Za-z][A-Za-z0-9+.-]+:', s))

def want(what, a, g, e):
    if g != e: raise Violation('value ' + what, '%s of %r gives %r, expected %r' % (what, a, g, e))

def pure(w, s, r, cwd):
    for _ in range(10):
        p, q = path(r), path(r)
        w.note = dict(path=p, other=q, cwd=cwd)
        w.count('path calls')
        want('basename', p, s.r('util', 'basename', p)[0], base(p))
        d = s.r('util', 'dirname', p)[0]
        want('dirname', p, d, dir_(p))
        want('isabs', p, s.r('util', 'isabs', p)[0], str(int(p.startswith('/'))))
        want('isuri', p, s.r('util', 'isuri', p)[0], str(int(isuri(p))))
        g = s.r('util', 'pbuild', p, q)[0]
        only = (p and not p.strip('/')) or (q and not q.strip('/'))
        if only: want('build', (p, q), flat(g), flat(build(p, q)))
        else: want('build', (p, q), g, build(p, q))
        if p.strip('/') and not p.endswith('/'):
            g = s.r('util', 'pbuild', d, base(p))[0]
            want('rejoin', p, flat(g), flat(p if '/' in p else './' + p))
        g = s.r('util', 'makeabs', p)[0]
        if p.startswith('/'): want('makeabs', p, g, p)
        else: want('makeabs', p, g if p.strip('/') else flat(g), build(cwd, p))
        g = s.r('util', 'pbuildabs', q, p)[0]
        j = p if q == '.' else build(q, p)
        want('buildabs', (q, p), flat(g), flat(j if j.startswith('/') else build(cwd, j)))
        b = r.choice(['', q, cwd, '.'])
        if '\0' in p: continue
        g = s.r('util', 'fromsrc', p, b)[0]
        if isuri(p): want('fromsrc', p, g, p)
        else:
            j = p if p.startswith('/') else p if b == '.' else build(b, p)
            e = j if j.startswith('/') else build(cwd, j)
            if not g.startswith('file:///') or re.search(r'[^!-~]|[<>"`{}|\\^]', g): raise Violation('value fromsrc', '%r from %r gives %r, no URI' % (p, b, g))
            got = unquote_to_bytes(g[7:]).decode('utf-8', 'surrogateescape')
            want('fromsrc', (p, b), flat(got), flat(e))
            if '?' not in g and '#' not in g: want('fromuri', g, s.r('util', 'fromuri', g)[0], got)
        if p.startswith('/'):
            u = 'file://' + ''.join('/' if c == 47 else chr(c) if chr(c) in 'abCx09-_.:' and r.random() < .7 else ('%%%02x' if r.random() < .5 else '%%%02X') % c for c in B(p))
            want('fromuri', u, s.r('util', 'fromuri', u)[0], p)
    w.seen('pure', w.hist[-1])

def content(r):
    k = r.random()
    if k < .15: return b''
    if k < .25: return bytes(r.randrange(256) for _ in range(300)) * r.choice([1, 10, 1000])
    return bytes(r.randrange(256) for _ in range(r.randint(1, 60)))

def fresh(w, r):
    w.nd = getattr(w, 'nd', 0) + 1
    d = os.path.join(w.dir, 'd%d' % w.nd)
    for _ in range(r.randint(0, 2)): d += '/' + seg(r).replace('/', '')
    os.makedirs(d)
    return d

def put(p, data):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(B(p), 'wb') as f: f.write(data)

def enc_rand(r, p):
    return 'file://' + ''.join('/' if c == 47 else chr(c) if chr(c) in 'abCxd0123456789-_.' and r.random() < .9 else '%%%02X' % c for c in B(p))

def read(w, s, r, cwd):
    d = fresh(w, r)
    for _ in range(5):
        p = d + '/' + seg(r)
        c = content(r)
        if os.path.exists(p): continue
        k = r.random()
        w.note = dict(file=p, kind='%.2f' % k, size=len(c)); w.count('reads')
        if k < .7:
            put(p, c)
            u = r.choice([enc_rand(r, p), s.r('util', 'fromsrc', p, '')[0], s.r('util', 'fromsrc', os.path.relpath(p, cwd), '')[0]])
            g = s.r('util', 'geturi', u)
            if g[0] != '1' or B(g[1]) != c: raise Violation('value read', 'reading %r (%r) gives %s %r..., expected %r...' % (u, p, g[0], g[1][:80], c[:80]))
            w.count('bytes read', len(c))
            w.seen('read', len(c), w.hist[-1])
        elif k < .85: want('read', p, s.r('util', 'geturi', enc_rand(r, p))[0], '0')
        elif k < .95: want('read', d, s.r('util', 'geturi', enc_rand(r, d))[0], '0')
        else: put(p, c); want('read', p, s.r('util', 'geturi', p)[0], '0')

# names that cannot be URI references, hence are file names
FILE = ['a', 'b', 'C', '0', '-', '_', '.', ' ', '\u00e9', '\u65e5', '[', ']', '{', '^', '|', '&', '+', '%zz', '(', '=', ',', '~', ';', '@']
def name(r):
    """(text of the source, path below the directory of the document)"""
    up = r.choice(['', '', '', './', '../u/', 'sub/', 'sub/../', '../'])
    if r.random() < .5:
        s = seg(r, FILE)
        while not re.search('[ \u00e9\u65e5]', s): s += r.choice([' ', '\u00e9', '\u65e5'])
        if s.strip() != s: s = 'x' + s + 'x'
        return up + s, up + s
    s = seg(r) 
    return up + quote(s, safe=r.choice(['', '~', "~!$&'()*+,;=@"])), up + s

def attr(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')

def docs(w, s, r, cwd):
    d = fresh(w, r) + '/' + 'p' + seg(r).replace('/', '')
    os.makedirs(d); os.makedirs(d + '/sub', exist_ok=True); os.makedirs(os.path.dirname(d) + '/u', exist_ok=True)
    lua = r.random() < .3
    fromdir = d                    # where sources are taken from
    buf = not lua and r.random() < .15
    if buf: fromdir = cwd
    ms, exp, made = [], {}, []
    for i in range(r.randint(1, 5)):
        src, p = name(r)
        if lua or buf: src = p                  # (there is no base: names are file names)
        k = r.random()
        if buf and (isuri(src) or '%' in src): src = p = 'x ' + seg(r, FILE).replace('%', '')
        real = os.path.normpath(fromdir + '/' + p)
        if k < .15: src = ('file://' + quote(real))
        elif k < .3:
            real = d + '/' + 'x ' + seg(r); src = real
        if not lua and k >= .15 and k < .3 and not re.search('[ \u00e9\u65e5]', src): src = real = real + ' \u00e9'
        if k >= .15 and k < .3 and ('%' in src or '#' in src or '?' in src) and not lua: src = real = re.sub('[%#?]', 'q', real)
        c = b'%d-%d-right' % (w.hist[-1], i)
        if os.path.isdir(real) or real in [x[1] for x in exp.values()]: continue
        put(real, c); made.append(real)
        decoy = os.path.normpath((cwd if fromdir == d else d) + '/' + p)
        if decoy != real and not os.path.exists(decoy) and decoy.startswith(w.dir) and k >= .3:
            try: put(decoy, b'decoy'); made.append(decoy)
            except OSError: pass
        ms.append(('m%d' % i, src)); exp['m%d' % i] = (c, real)
    # (a later decoy must not have replaced an expected file)
    if lua:
        def q(x): return '"' + ''.join('\\%03d' % c for c in B(x)) + '"'
        text = 'return {"context","main",nil,{"%s@lambda"},{%s},nil}' % (ms[0][0] if ms else 'z', ','.join('{"media","%s",{src=%s}}' % (m, q(x)) for m, x in ms))
        if not ms: raise Skip('no media')
        f = d + '/x' + seg(r) + '.lua'; cmd = 'parselua'
    else:
        f = d + '/x' + seg(r) + '.ncl'; cmd = 'parsebuf' if buf else 'parse'
        imp = ''
        regs = None
        if r.random() < .5 and not buf:
            # imports, each relative to the document that names it
            n = r.randint(1, 3); at = d; decl = ''; files = []
            for j in range(n):
                nm = r.choice(['', 'sub/', '../u/', './']) + 'i%d ' % j + seg(r, FILE)
                files.append((at, nm)); at = os.path.dirname(os.path.normpath(at + '/' + nm))
            val = '%d' % r.randint(1, 99)
            for j in range(n - 1, -1, -1):
                p = os.path.normpath(files[j][0] + '/' + files[j][1])
                if j == n - 1: x = '<ncl><head><descriptorBase><descriptor id="D" explicitDur="%ss"/></descriptorBase></head><body/></ncl>' % val
                else: x = '<ncl><head><descriptorBase><importBase alias="i" documentURI="%s"/></descriptorBase></head><body/></ncl>' % attr(files[j + 1][1])
                put(p, x.encode()); made.append(p)
                dc = os.path.normpath(cwd + '/' + files[j][1])
                if dc != p and dc.startswith(w.dir) and not os.path.exists(dc):
                    try: put(dc, b'<ncl><head><descriptorBase><descriptor id="D" explicitDur="123s"/></descriptorBase></head><body/></ncl>'); made.append(dc)
                    except OSError: pass
            imp = '<descriptorBase><importBase alias="i" documentURI="%s"/></descriptorBase>' % attr(files[0][1])
            ref = 'i#' * n + 'D'; regs = val
        font = ''
        if r.random() < .15 and w.font and not buf:
            fs, fp = name(r)
            tgt = os.path.normpath(fromdir + '/' + fp)
            if not os.path.lexists(tgt):
                os.makedirs(os.path.dirname(tgt), exist_ok=True); os.symlink(w.font, tgt); made.append(tgt)
                font = '<fontBase><font fontFamily="vtfam" src="%s"/></fontBase>' % attr(fs); w.count('fonts')
        text = '<?xml version="1.0" encoding="UTF-8"?><ncl><head>%s%s</head><body>%s%s</body></ncl>' % (imp, font, ''.join('<media id="%s" src="%s"/>' % (m, attr(x)) for m, x in ms),
                '<media id="mi" descriptor="%s"/>' % ref if imp else '')
    put(f, text.encode('utf-8', 'surrogateescape'))
    for c, p in exp.values():
        if open(B(p), 'rb').read() != c: raise Skip('names collide')
    how = f
    if not buf:
        k = r.random()
        if k < .3: how = os.path.relpath(f, cwd)
        elif k < .5 and not lua: how = 'file://' + quote(f)
    w.note = dict(document=f, called=how, cwd=cwd, text=text[:6000]); w.count('documents')
    g = s.r(cmd, how, '800', '600') if cmd != 'parsebuf' else s.r('parsebuf', text, '800', '600')
    if g[0] != '1': raise Violation('document refused', '%s: %s' % (how, g[1]))
    for m, src in ms:
        u = s.r('getprop', m, 'uri')[0]
        c, p = exp[m]
        g = s.r('util', 'geturi', u)
        w.count('sources')
        if g[0] != '1' or B(g[1]) != c: raise Violation('wrong file', 'source %r of %s in %r (current directory %r) is taken as %r (%s), which is not the file %r' % (src, m, f, cwd, u, repr(g)[:60], p))
        w.seen('doc', src, w.hist[-1])
    if not lua and regs:
        g = s.r('getprop', 'mi', 'explicitDur')[0]; w.count('imports', n)
        want('import', f, g, regs + 's')
    for p in made:
        try: os.unlink(B(p))
        except OSError: pass

def setup(w):
    w.font = None
    for root, _, fs in os.walk('/usr/share/fonts'):
        for f in fs:
            if f.endswith('.ttf'): w.font = os.path.join(root, f); break
        if w.font: break
    w.dir = os.path.realpath(w.dir)
    w.cwds = [w.dir + '/cw', w.dir + '/c w/\u00e9%41', w.dir + '/cw/x']
    for c in w.cwds: os.makedirs(c + '/sub', exist_ok=True)

def case(w, i, rng):
    s = w.session()
    cwd = rng.choice(w.cwds)
    s.cmd('chdir', cwd)
    try:
        rng.choice([pure, read, docs, docs])(w, s, rng, cwd)
    except Crash as e:
        if e.kind == 'gerror': raise Violation('diagnosed abort', e.err[-1500:])
        raise
    if i < 3: w.sample(dict(last=w.note))
    if i % 25 == 0:
        w.count('leak checks')
        if s.r('leak')[0] != '0': raise Violation('leak', s.stderr()[-3000:])
    if i % 20 == 0:
        for x in os.listdir(w.dir):
            if re.match(r'd\d+$', x): shutil.rmtree(B(os.path.join(w.dir, x)), ignore_errors=True)
