from engine import *
import glob, re, mut
ID = 'C10'
QUICK, THOROUGH = 6000, 250000
CHUNK = 50
TIMEOUT = 60
RULE = ('valid documents (generated, plus the repository\'s own) under byte mutations (truncation, bit flips, splices, entities, encodings), element mutations (delete, duplicate, move, '
        'rename, wrap, attributes exchanged or hostile), imported files mutated likewise, extreme documents (deep nesting, many elements, entity bombs, circular references) and '
        'random bytes, given as buffer or as file; under ASan+UBSan+leak detection, assertions and GLib warnings on; non-trivial when the text differs from every earlier one')
CYCLE = '<ncl id="i%d"><head><importedDocumentBase><importNCL alias="x" documentURI="i%d.ncl"/></importedDocumentBase></head><body id="b%d"/></ncl>'

def setup(w):
    w.corpus = []
    for f in sorted(glob.glob(REPO + '/tests-ncl/**/*.ncl', recursive=True)):
        try:
            b = open(f, 'rb').read()
            if len(b) < 30000: w.corpus.append((b, f))
        except OSError: pass

def base(w, rng):
    if w.corpus and rng.random() < .25:
        return rng.choice(w.corpus)[0]
    knobs = rng.choice([dict(), dict(depth=3, switch=.4), dict(desc=.9, regions=.9), dict(compound=.8, assess=.8, ghosts=.8), dict(refer=.7, settings=.9, refset=.5), dict(sel=.9, custom_role=.7)])
    d = Gen(rng, medias=(1, 5), **knobs).doc()
    if rng.random() < .3: d.trans.append([('id', 'trx'), ('type', 'barWipe'), ('subtype', 'leftToRight'), ('dur', '1s')])
    return d.xml().encode()

def mutate(w, rng):
    k = rng.random()
    if k < .08: return mut.weird(rng), ['extreme']
    b = base(w, rng)
    if k < .5:
        try: t = mut.parse(b.decode('utf8'))
        except Exception: return mut.byte_mut(b, rng)
        names = [mut.tree_mut(t, rng) for _ in range(rng.choice([1, 1, 1, 2, 3, 6]))]
        x = t.xml().encode('utf8', 'surrogateescape')
        if rng.random() < .1: x, n2 = mut.byte_mut(x, rng); names += n2
        return x, names
    if k < .95: return mut.byte_mut(b, rng, base(w, rng))
    return b, ['none']

def importer(w, rng):
    """a document that imports mutated files"""
    kind = rng.choice(['regionBase', 'descriptorBase', 'connectorBase', 'ruleBase', 'transitionBase', 'document', 'cycle', 'self'])
    x, names = mutate(w, rng)
    w.write('imp.ncl', x)
    if kind == 'cycle':
        for i in range(3): w.write('i%d.ncl' % i, CYCLE % (i, (i + 1) % 3, i))
        return b'<ncl id="a"><head><connectorBase><importBase alias="k" documentURI="i0.ncl"/></connectorBase></head><body id="b"/></ncl>', ['import cycle']
    uri = {'self': 'd.ncl'}.get(kind, rng.choice(['imp.ncl', 'imp.ncl', 'imp.ncl', 'imp.ncl#x', 'nothere.ncl', '', 'file://%s/imp.ncl' % w.dir, w.dir, 't.txt', 'i.png']))
    b = kind if kind.endswith('Base') else 'connectorBase'
    if kind == 'document': h = '<importedDocumentBase><importNCL alias="k" documentURI="%s"/></importedDocumentBase>' % uri
    else: h = '<%s><importBase alias="k" documentURI="%s"/></%s>' % (b, uri, b)
    t = '<ncl id="a"><head>%s</head><body id="b"><port id="p" component="m"/><media id="m"%s/></body></ncl>' % (h, rng.choice(['', ' descriptor="k#d"', ' descriptor="k#de1"']))
    return t.encode(), ['import of: '] + names

def case(w, i, rng):
    s = w.session()
    if len(w.hist) <= 1 and rng.random() < .5:
        # nothing at all, as the very first document of a process
        mode = rng.choice(['parse', 'parsebuf'])
        w.note = dict(mutations=['nothing, first'], mode=mode, document='')
        r = s.r('parse', w.write('d.ncl', ''), 320, 240) if mode == 'parse' else s.r('parsebuf', '', 320, 240)
        if r[0] != '0' or not r[1]: raise Violation('silent rejection', 'nothing is not explained: %s' % r)
        w.count('mutation: nothing, first')
    if rng.random() < .12: x, names = importer(w, rng)
    else: x, names = mutate(w, rng)
    mode = rng.choice(['parse', 'parsebuf'])
    w.note = dict(mutations=names, mode=mode, document=x.decode('latin-1')[:200000])
    W, H = rng.choice([(320, 240), (1, 1), (1920, 1080), (2147483647, 2147483647)])
    if mode == 'parse': r = s.r('parse', w.write('d.ncl', x), W, H)
    else: r = s.r('parsebuf', x, W, H)
    for n in names: w.count('mutation: ' + n)
    if r[0] == '1':
        w.count('accepted')
        if rng.random() < .5: s.cmd('dump')
    else:
        w.count('rejected')
        if r[1] == '': raise Violation('silent rejection', 'the document is rejected without a message')
        w.extra.setdefault('distinct_messages', 0)
        m = re.sub(r"'[^']*'|\d+|\"[^\"]*\"", '_', r[1])[:80]
        ms = getattr(w, 'msgs', None)
        if ms is None: ms = w.msgs = set()
        if m not in ms: ms.add(m); w.count('message: ' + m)
    s.cmd('unparse')
    w.seen(x)
    w.sample(dict(mutations=names, mode=mode, text=x.decode('latin-1')[:600], answer=r))
    n = getattr(w, 'since', 0) + 1
    if rng.random() < .08 or len(w.hist) == 1:
        # LeakSanitizer run over what the latest parses left behind
        w.count('leak checks')
        if s.r('leak')[0] != '0': raise Violation('leak', s.stderr()[-3000:] and 'memory is lost after parsing: ' + frames(s.stderr()) or '')

def finish(w):
    if w.s is not None and w.s.p.poll() is None:
        if w.s.r('leak')[0] != '0': raise Violation('leak', 'memory is lost after parsing: ' + frames(w.s.stderr()))
