"""Table (Lua) form of a presentation, from the structure it must have (spec.expect)."""
import spec

class Multi(Exception): pass        # not expressible

def lstr(s, rng):
    k = rng.random()
    if k < .15 and '\n' not in s and ']' not in s and not s.startswith('\n'): return '[[%s]]' % s.encode('utf-8', 'surrogateescape').decode('latin-1')
    q = rng.choice('"\'')
    out = []
    for b in s.encode('utf-8', 'surrogateescape'):
        c = chr(b)
        if c == q or c == '\\': out.append('\\' + c)
        elif b < 32 or b >= 127 and rng.random() < .3: out.append('\\%03d' % b)
        elif b >= 127: out.append(bytes([b]).decode('latin-1'))
        else: out.append(c)
    return q + ''.join(out) + q

NAME = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
KW = 'and break do else elseif end false for function goto if in local nil not or repeat return then true until while'.split()
def lua(x, rng):
    """text (latin-1 characters) of a Lua value: None, bool, str, Num, list, dict"""
    if x is None: return 'nil'
    if x is True: return 'true'
    if x is False: return 'false'
    if isinstance(x, Num): return x.s
    if isinstance(x, Raw): return x.s
    if isinstance(x, str): return lstr(x, rng)
    sep = lambda: rng.choice([',', ',', ';', ', ', ',\n'])
    if isinstance(x, list):
        y = list(x)
        if rng.random() < .3:
            while y and y[-1] is None: y.pop()
        return '{' + ''.join(lua(v, rng) + (sep() if i < len(y) - 1 or rng.random() < .3 else '') for i, v in enumerate(y)) + '}'
    if isinstance(x, dict):
        ks = list(x.items()); rng.shuffle(ks)
        out = []
        for k, v in ks:
            if isinstance(k, str) and set(k) <= NAME and k and not k[0].isdigit() and k not in KW and rng.random() < .7: n = k
            else: n = '[ ' + lua(k, rng) + ' ]'
            out.append(n + rng.choice(['=', ' = ']) + lua(v, rng))
        return '{' + ''.join(o + (sep() if i < len(out) - 1 else '') for i, o in enumerate(out)) + '}'
    raise TypeError(x)

class Num:
    def __init__(self, s): self.s = s
class Raw:
    def __init__(self, s): self.s = s

def evname(o, cid, e, alias):
    oid, T, i = e
    if oid == '__settings__':
        # (the loader resolves names as it goes: a name declared elsewhere later is not yet known)
        a = [x[0] for x in o[oid]['aliases'] if x[1] == cid and (T != 'A' or i == 'service.currentFocus' or i in o[oid]['decl'][x[0]])]
        if not a:
            if cid != '__root__' or i != 'service.currentFocus' and T == 'A': raise Multi()
            a = ['__settings__']
        name = alias.choice(a)
    else:
        if o[oid]['parent'] != cid: raise Multi()
        name = oid
    if set(name) & set('@.<'): raise Multi()
    if T == 'P': return name + ('@lambda' if i == '@lambda' else '@' + i)
    if T == 'A': return name + '.' + i
    if T == 'S': return '%s<%s>' % (name, i)
    raise Multi()

def pred(p, rng):
    t = p['t']
    if t in (0, 1): return [bool(t)]
    if t == 2: return [p['l'], ['==', '!=', '<', '<=', '>', '>='][p['op']], p['r']]
    c = p.get('c') or []
    if t == 3: return ['not', pred(c[0], rng)]
    if not c: raise Multi()
    w = {4: 'and', 5: 'or'}[t]
    if rng.random() < .2: w = w.upper()
    def go(l):
        if len(l) == 1: return pred(l[0], rng)
        k = rng.randint(1, len(l) - 1)
        return [w, go(l[:k]), go(l[k:])]
    return go(c)

TR = {'start': 'start', 'stop': 'stop', 'pause': 'pause', 'resume': 'resume', 'abort': 'abort'}

def table(doc, o, rng):
    """-> (tree, adjusted expectation)"""
    o = {k: dict(v, events=dict(v['events']), props=dict(v['props'])) for k, v in o.items()}
    o['__settings__']['props'].pop('type', None)
    o['__root__']['aliases'] = [a for a in o['__root__']['aliases'] if a[0] == doc.body.id]
    o['__settings__']['decl'] = {m.id: [n for n, _ in m.props] for m in doc.medias() if m.type in spec.SETTINGS_TYPES}
    def up(s): return s.upper() if rng.random() < .05 else s
    def props(names, vals): return {n: vals.get(n, '') for n in names}
    def ttime(ns):
        t = spec.times(ns)
        k = rng.random()
        if k < .2: return Num(t[:-1])
        if k < .4: return t[:-1]
        return t
    def media(m, cid):
        if m.refer: raise Multi()
        if m.type in spec.SETTINGS_TYPES:
            e = o['__settings__']
            e['events'][('A', 'type')] = (0, None, '', None)
            e['props'].pop('type', None)
            p = {'type': m.type}
            for n, v in m.props:
                if not v and any(n in o['__settings__']['decl'][x] for x in o['__settings__']['decl'] if x != m.id): raise Multi()
                p[n] = v or ''
            return ['media', m.id, p] + ([[]] if rng.random() < .2 else [])
        e = o[m.id]
        p = {}
        for (T, n) in e['events']:
            if T == 'A': p[n] = e['props'].get(n, '')
        for n, k in (('uri', 'src'), ('type', 'type')):
            v = m.src if n == 'uri' else m.type
            if v:
                p[k] = v
                e['events'][('A', n)] = (0, None, '', None)
        a = []
        for (T, n), (b, en, lab, key) in e['events'].items():
            if T == 'P' and n != '@lambda':
                if lab: raise Multi()
                if set(n) & set('@'): raise Multi()
                x = [n, ttime(b) if b or rng.random() < .6 else None, ttime(en) if en is not None else None]
                if x[1] is None and x[2] is None: x = [n]
                a.append(x)
        rng.shuffle(a)
        r = ['media', m.id, p if p or rng.random() < .5 else None, a if a or rng.random() < .3 else None]
        return r
    def comp(c, cid):
        kids = [(media(x, cid) if x.kind == 'Media' else comp(x, x.id)) for x in c.children]
        e = o[cid]
        if c.kind == 'Switch':
            if c.ports: raise Multi()
            return ['switch', cid, kids or None, [[x, pred(p, rng)] for x, p in e['rules']] or None]
        ports = [evname(o, cid, x, rng) for x in e['ports']]
        links = []
        for C, A in e['links']:
            cs = [[up(x['tr']), evname(o, cid, x['e'], rng)] + ([pred(x['p'], rng)] if x['p'] else []) for x in C]
            as_ = []
            for x in A:
                tr = x['tr']
                if tr == 'start' and x['e'][1] == 'A' and rng.random() < .7: tr = 'set'
                y = [up(tr), evname(o, cid, x['e'], rng), x['v'] if x['e'][1] == 'A' and (x['v'] or rng.random() < .5) else None]
                q = {}
                if x['del'] or rng.random() < .1: q['delay'] = x['del']
                if x['dur'] or rng.random() < .1: q['duration'] = x['dur']
                if q or rng.random() < .1: y.append(q)
                as_.append(y)
            links.append([cs, as_])
        return ['context', c.id, props([n for (T, n) in e['events'] if T == 'A'], e['props']) or None, ports or None, kids or None, links or None]
    t = comp(doc.body, '__root__')
    return t, o

def canon(p):
    """predicate up to grouping and order of and/or"""
    if p is None: return None
    t = p['t']
    if t == 2: return (2, p['l'], p['op'], p['r'])
    c = [canon(x) for x in p.get('c') or []]
    if t in (4, 5):
        l = []
        for x in c: l += list(x[1:]) if x[0] == t else [x]
        if len(l) == 1: return l[0]
        return (t,) + tuple(sorted(l, key=repr))
    return (t,) + tuple(c)

def unpred(c):
    if c is None: return None
    if c[0] == 2: return {'t': 2, 'l': c[1], 'op': c[2], 'r': c[3]}
    return {'t': c[0], 'c': [unpred(x) for x in c[1:]]}

def canonall(o):
    """canonical predicates in an expectation or dump object"""
    for e in (o.values() if isinstance(o, dict) else o):
        f = lambda p: unpred(canon(p))
        if 'rules' in e: e['rules'] = [[c, f(p)] for c, p in e['rules']]
        if 'links' in e: e['links'] = [[[dict(x, p=f(x['p'])) for x in C], A] for C, A in e['links']]
    return o
