from engine import *
import itertools
ID = 'C13'
QUICK, THOROUGH = 2500, 60000
RULE = ('random documents whose regions, transitions, descriptors, connectors and rules are moved, wholly or in part, to imported files (chains up to four files deep, several aliases for '
        'one file, files shared by several bases, files in sub-directories and with odd names, relative, absolute and URI references); the parsed structure is compared with what the '
        'document would declare in place, and a part is run in lockstep; import cycles (spelled in several ways), missing and broken files, missing bases and unknown aliases must be '
        'refused with a message; non-trivial when at least one element is reached through an alias or a faulty import is refused')

class Split:
    def __init__(self, w, rng, odd=True):
        self.w, self.r, self.n, self.files, self.odd = w, rng, itertools.count(1), [], odd
        self.count = 0
        self.log, self.trees = {}, {}
    def name(self, base):
        """(path relative to base dir, directory)"""
        d = self.r.choice(['', '', '', 'sub', 'sub/deep', '..x'])
        n = 'f%d%s.ncl' % (next(self.n), self.r.choice(['', '', ' sp', '%41', '\u00e9', '+', '#h'[:0]]) if self.odd else '')
        return os.path.join(d, n)
    def ref(self, frm, path):
        """a reference to path from the directory frm"""
        k = self.r.random()
        if k < .7: return os.path.relpath(path, frm)
        if k < .8: return './' + os.path.relpath(path, frm)
        if k < .9: return path
        from urllib.parse import quote
        return 'file://' + quote(path)
    def save(self, path, bases):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        t = N('ncl', {'id': 'imp'} if self.r.random() < .5 else {}, [N('head', {}, bases)] + ([N('body', {'id': 'whatever'}, [N('media', {'id': 'unused'})])] if self.r.random() < .3 else []))
        x = '<?xml version="1.0" encoding="UTF-8"?>\n' + (t.xml() if self.r.random() < .6 else spec.render(t, self.r))
        open(path, 'w').write(x)
        self.log[path], self.trees[path] = x, t
    def imp(self, alias, uri): return N('importBase', {'alias': alias, 'documentURI': uri})
    def alias(self, used):
        while True:
            a = self.r.choice(['a', 'b', 'al', 'x.y', 'k-1', '_q']) + self.r.choice(['', '1', '2', '3', '4', '5', '6', '7', '8', '9'])
            if a not in used: used.add(a); return a
    def flat(self, kind, elems, d, depth, used):
        """elements that refer to nothing: -> (children of the base, {id: [names]})"""
        ch, names = [], {}
        r = self.r
        here = [e for e in elems if depth == 0 or r.random() < .45]
        there = [e for e in elems if e not in here]
        imports = []
        parts = [there]
        if len(there) > 1 and r.random() < .3:        # several files imported by the same base
            n = r.randint(2, min(9, len(there)))
            parts = [there[j::n] for j in range(n)]
        for there in parts if there else []:
            path = os.path.join(d, self.name(d))
            sub, nm = self.flat(kind, there, os.path.dirname(path), depth - 1, set())
            k = r.choice([2, 3, 6]) if r.random() < .15 else 1         # all the bases of the kind are imported
            self.save(path, [N(kind, {'id': 'bb%d' % next(self.n)} if r.random() < .2 else {}, sub[j::k]) for j in range(k)])
            for _ in range(r.choice([2, 2, 2, 3, 6, 12]) if r.random() < .25 else 1):
                a = self.alias(used)
                imports.append(self.imp(a, self.ref(d, path)))
                for k, v in nm.items(): names.setdefault(k, []).extend(a + '#' + x for x in v)
            self.count += 1
        for e in here: 
            for x in e.walk():
                if x.get('id'): names.setdefault(x.get('id'), []).append(x.get('id'))
        ch = here + imports
        if r.random() < .5: ch = imports + here
        return ch, names
    def layout(self, regs, trans, descs, d, depth, used):
        """-> ({base: children}, region names, transition names, descriptor names)"""
        r = self.r
        if depth and descs and r.random() < .55:
            path = os.path.join(d, self.name(d))
            b, rn, tn, dn = self.layout(regs, trans, descs, os.path.dirname(path), depth - 1, set())
            self.save(path, [N(k, {}, v) for k, v in b.items() if v or k == 'descriptorBase'])
            a = self.alias(used)
            self.count += 1
            f = lambda m: {k: [a + '#' + x for x in v] for k, v in m.items()}
            ch = [self.imp(a, self.ref(d, path))]
            names = f(dn)
            if r.random() < .2:
                a2 = self.alias(used); ch.append(self.imp(a2, self.ref(d, path)))
                for k in dn: names[k] += [a2 + '#' + x for x in dn[k]]
            return {'descriptorBase': ch}, f(rn), f(tn), names
        rc, rn = self.flat('regionBase', regs, d, depth, used)
        tc, tn = self.flat('transitionBase', trans, d, depth, used)
        ds = []
        for x in descs:
            x = x.copy()
            for at, m in (('region', rn), ('transIn', tn), ('transOut', tn)):
                if x.get(at): x.at = [(k, r.choice(m[v]) if k == at else v) for k, v in x.at]
            ds.append(x)
        return {'regionBase': rc, 'transitionBase': tc, 'descriptorBase': ds}, rn, tn, {x.get('id'): [x.get('id')] for x in ds}

def pick(r, m, v): return r.choice(m[v]) if v in m else v

def split(w, rng, d, dirpath, depth, odd=True):
    t = d.tree()
    S = Split(w, rng, odd)
    head = [c for c in t.ch if c.tag == 'head']
    if not head: return t, S
    head = head[0]
    by = {}
    for b in head.ch: by.setdefault(b.tag, []).extend(b.ch)
    used = set()
    out, order = {}, []
    b, rn, tn, dn = S.layout(by.get('regionBase', []), by.get('transitionBase', []), by.get('descriptorBase', []), dirpath, depth, used)
    out.update(b)
    out['ruleBase'], ru = S.flat('ruleBase', by.get('ruleBase', []), dirpath, depth, used)
    out['connectorBase'], co = S.flat('connectorBase', by.get('connectorBase', []), dirpath, depth, used)
    keys = [k for k in out if out[k]]
    rng.shuffle(keys)
    head.ch = [N(k, {}, out[k]) for k in keys]
    for e in t.walk():
        for at, m in (('descriptor', dn), ('rule', ru), ('xconnector', co)):
            if e.tag in ('media', 'bindRule', 'link') and e.get(at): e.at = [(k, pick(rng, m, v) if k == at else v) for k, v in e.at]
    return t, S

def faulty(w, rng, s):
    base = rng.choice(['regionBase', 'descriptorBase', 'connectorBase', 'ruleBase', 'transitionBase'])
    main = lambda uri, extra='', body='': ('<ncl id="a"><head>%s<%s><importBase alias="k" documentURI="%s"/></%s></head><body id="b"><port id="p" component="m"/><media id="m"%s/>%s</body></ncl>'
                                           % (extra, base, uri, base, body, ''))
    ok = '<ncl id="i"><head><%s>%s</%s></head></ncl>'
    kind = rng.choice(['cycle', 'cycle', 'cycle', 'self', 'missing', 'nobase', 'broken', 'fault', 'alias', 'dir', 'nohead', 'empty'])
    exp = None
    if kind in ('cycle', 'self'):
        n = rng.randint(1, 4)
        pre = rng.choice(['', './', '../' + os.path.basename(w.dir) + '/', 'sub/../', './/', w.dir + '/', 'file://' + w.dir + '/'])
        os.makedirs(w.dir + '/sub', exist_ok=True)
        names = ['cy%d.ncl' % j for j in range(n)]
        if kind == 'self': names = ['d.ncl'] if n == 1 else names[:-1] + ['d.ncl']
        for j, nm in enumerate(names):
            if nm != 'd.ncl': w.write(nm, '<ncl><head><%s><importBase alias="z" documentURI="%s%s"/></%s></head></ncl>' % (base, pre, names[(j + 1) % n], base))
        txt = main(pre + names[0]); exp = 'circular'
    elif kind == 'missing': txt = main('nosuchfile.ncl')
    elif kind == 'dir': txt = main('.')
    elif kind == 'empty': w.write('imp.ncl', ''); txt = main('imp.ncl')
    elif kind == 'nobase':
        w.write('imp.ncl', '<ncl><head><%s/></head></ncl>' % rng.choice([x for x in ['regionBase', 'descriptorBase', 'connectorBase', 'ruleBase'] if x != base]))
        txt = main('imp.ncl'); exp = base
    elif kind == 'nohead': w.write('imp.ncl', '<ncl><body/></ncl>'); txt = main('imp.ncl'); exp = base
    elif kind == 'broken': w.write('imp.ncl', rng.choice(['<ncl><head>', 'text', '<ncl a=1/>', '<ncl></head></ncl>'])); txt = main('imp.ncl')
    elif kind == 'fault':
        w.write('imp.ncl', '<ncl><head><%s><bogus/></%s></head></ncl>' % (base, base)); txt = main('imp.ncl'); exp = 'bogus'
    else:
        w.write('imp.ncl', ok % (base, '', base))
        base = 'descriptorBase'
        w.write('imp.ncl', ok % (base, '<descriptor id="d1"/>', base))
        ref = rng.choice(['zz#d1', 'd1', 'k#nosuch', 'k#', '#d1', 'k#k#d1'])
        txt = main('imp.ncl', body=' descriptor="%s"' % ref); exp = ref
    p = w.write('d.ncl', txt)
    w.note = dict(kind=kind, document=txt)
    r = s.r('parse', p, 320, 240, timeout=20)
    if r[0] != '0': raise Violation('accepted', 'a document with a faulty import (%s) is accepted' % kind)
    if not r[1]: raise Violation('silent rejection', 'no message for %s' % kind)
    if exp and exp not in r[1]: raise Violation('message', 'the message for %s does not name %r: %s' % (kind, exp, r[1]))
    w.count('refused: ' + kind)
    w.seen(kind, txt)

LOCAL = ['unknown element', 'rename element', 'wrong parent', 'unknown attribute', 'missing attribute', 'empty attribute', 'duplicate id', 'duplicate id', 'duplicate id', 'ill-formed name', 'bad value',
         'custom role incomplete', 'set without value', 'missing child', 'too many children', 'dangling reference']
BASES = ('regionBase', 'transitionBase', 'descriptorBase', 'connectorBase', 'ruleBase')

def outline(t):
    """a tree without what its bases contain"""
    return (t.tag, tuple(t.at), () if t.tag in BASES else tuple(outline(c) for c in t.ch))

def inner(w, rng, s, S, main):
    """one of the imported files of a good document gets a fault"""
    from checks import c12
    for _ in range(12):
        path = rng.choice(sorted(S.trees))
        t = S.trees[path].copy()
        kind = rng.choice(LOCAL)
        try: tokens = c12.fault(kind, t, rng)
        except c12.NA: continue
        if outline(t) != outline(S.trees[path]) or t.xml() == S.trees[path].xml(): continue
        if kind == 'duplicate id' and sum("'%s'" % x.get('id') == tokens[0] for b in t.walk() if b.tag in BASES for x in b.walk()) < 2: continue   # the other one is in the body, which is left aside
        open(path, 'w').write(t.xml())
        w.note = dict(fault=kind, file=path, contents=t.xml(), document=open(main).read(), files=S.log)
        r = s.r('parse', main, 320, 240, timeout=20)
        if r[0] != '0': raise Violation('accepted: ' + kind, 'a document is accepted although an imported file has a fault (%s: %s)' % (kind, tokens))
        for k in tokens:
            alt = [x for y in (k if isinstance(k, tuple) else (k,)) for x in (y, '#' + y[1:] if y[:1] == "'" else y)]
            if not any(x in r[1] for x in alt): raise Violation('message: ' + kind, 'the message for "%s" in an imported file does not name %s: %s' % (kind, k, r[1]))
        open(path, 'w').write(S.log[path])
        w.count('refused: imported ' + kind)
        w.seen(kind, t.xml())
        return

def case(w, i, rng):
    from checks.c11 import dump_of
    s = w.session()
    if i % 5 == 0: return faulty(w, rng, s)
    knobs = rng.choice([dict(desc=1, regions=1, trans=.7), dict(desc=1, regions=.9, trans=.3, switch=.5), dict(switch=.7, ruledepth=4), dict(links=(3, 8), compound=.7), dict(desc=1, regions=1, extra=.8)])
    d = Gen(rng, **knobs).doc()
    for f in os.listdir(w.dir):
        if f.startswith(('f', 'sub', '..x')):
            p = os.path.join(w.dir, f)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
    t, S = split(w, rng, d, w.dir, rng.randint(1, 4))
    txt = '<?xml version="1.0" encoding="UTF-8"?>\n' + t.xml()
    p = w.write('d.ncl', txt)
    W, H = rng.choice([(320, 240), (800, 600), (1920, 1080)])
    w.note = dict(document=txt, files=S.log)
    uri = (lambda x: 'file://%s/%s' % (w.dir, x))
    if rng.random() < .25 and not any(x.get('transIn') or x.get('transOut') for x in d.tree().walk()):
        # behaves as the document with everything in place
        s.cmd('new', W, H, '', 0, 0, 0)
        L = Lock(s, w.stats)
        if not L.start(p):
            if L.err: raise Violation('refused', 'a valid import is refused: ' + L.err)
        else:
            df = spec.diff(spec.expect(d, W, H, uri=uri), L.dump)
            if df: raise Violation('structure', df)
            O = Ops(rng)
            for _ in range(rng.randint(3, 20)):
                if not L.m.playing: break
                L.do(O.next(L.m))
            w.count('behaviours')
        s.cmd('del')
    else:
        r = s.r('parse', p, W, H)
        if r[0] != '1': raise Violation('refused', 'a valid import is refused: ' + r[1])
        df = spec.diff(spec.expect(d, W, H, uri=uri), dump_of(s))
        s.cmd('unparse')
        if df: raise Violation('structure', df)
        if S.trees and rng.random() < .5: inner(w, rng, s, S, p)
    w.count('imported files', S.count)
    if S.count: w.seen(txt, sorted(S.log.values())); w.sample(dict(document=txt[:1200], files={k: v[:400] for k, v in list(S.log.items())[:2]}))
