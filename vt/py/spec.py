"""Abstract NCL documents: rendering as XML and the structure a loader must build from them."""
from xml.sax.saxutils import quoteattr
SEC = 10 ** 9

def q(s): return quoteattr(s)

class N:
    """XML element"""
    __slots__ = ('tag', 'at', 'ch')
    def __init__(self, tag, at=(), ch=()):
        self.tag, self.at, self.ch = tag, [(k, v) for k, v in (at.items() if isinstance(at, dict) else at) if v is not None], list(ch)
    def xml(self, ind=0):
        s = ' ' * ind + '<' + self.tag + ''.join(' %s=%s' % (k, q(v)) for k, v in self.at)
        if not self.ch: return s + '/>\n'
        return s + '>\n' + ''.join(c.xml(ind + 1) for c in self.ch) + ' ' * ind + '</' + self.tag + '>\n'
    def copy(self):
        return N(self.tag, list(self.at), [c.copy() for c in self.ch])
    def walk(self):
        yield self
        for c in self.ch:
            yield from c.walk()
    def get(self, k):
        for a, v in self.at:
            if a == k: return v
    def set(self, k, v):
        self.at = [(a, x) for a, x in self.at if a != k] + ([(k, v)] if v is not None else [])

def escattr(v, rng, quote):
    out = []
    for c in v:
        if c in '<&' or c == quote or c in '\t\n\r': out.append(rng.choice(['&#%d;' % ord(c), '&#x%X;' % ord(c)] + ([{'<': '&lt;', '&': '&amp;', '"': '&quot;', "'": '&apos;'}[c]] * 2 if c in '<&"\'' else [])))
        elif c == '>' or rng.random() < .02: out.append(rng.choice(['&#%d;' % ord(c), '&#x%x;' % ord(c), c]))
        else: out.append(c)
    return quote + ''.join(out) + quote

JUNK = ['<!-- note -->', '<!-- <media id="no"/> -->', '\n\n', '\t', '<?pi some data?>', ' ', '<![CDATA[ ]]>', 'text ']
def render(n, rng, junk=.15, order=.5, prefix='', depth=0):
    """the same element in a random spelling: attribute order, quotes, character references, comments, text, white space"""
    at = list(n.at)
    if rng.random() < order: rng.shuffle(at)
    sp = lambda: rng.choice([' ', ' ', ' ', '  ', '\n   ', '\t'])
    s = '<' + prefix + n.tag + ''.join(sp() + k + rng.choice(['=', '=', ' = ']) + escattr(v, rng, rng.choice('""\'')) for k, v in at) + rng.choice(['', ' ', ''])
    j = lambda: rng.choice(JUNK) if rng.random() < junk else rng.choice(['', '\n', '\n'])
    if not n.ch and rng.random() < .6: return s + '/>'
    return s + '>' + ''.join(j() + render(c, rng, junk, order, prefix, depth + 1) for c in n.ch) + j() + '</' + prefix + n.tag + rng.choice(['', ' ']) + '>'

def times(ns):
    """exact text of a time"""
    s, f = divmod(ns, SEC)
    return ('%d' % s if not f else ('%d.%09d' % (s, f)).rstrip('0')) + 's'

class Media:
    kind = 'Media'
    def __init__(self, id):
        self.id, self.parent = id, None
        self.src = self.type = self.refer = self.desc = self.instance = None
        self.areas, self.props, self.order = [], [], None
    def node(self):
        ch = [N('area', {'id': a, 'begin': b, 'end': e, 'label': l}) for a, b, e, l in self.areas]
        ch += [N('property', {'name': n, 'value': v}) for n, v in self.props]
        if self.order: ch = [ch[i] for i in self.order(len(ch))]
        return N('media', {'id': self.id, 'src': self.src, 'type': self.type, 'refer': self.refer,
                           'instance': self.instance, 'descriptor': self.desc}, ch)

class Context:
    kind = 'Context'
    def __init__(self, id):
        self.id, self.parent = id, None
        self.children, self.ports, self.props, self.links = [], [], [], []
        self.shuffle = None
    def add(self, c): c.parent = self; self.children.append(c); return c
    def node(self, tag='context'):
        ports = [N('port', {'id': p, 'component': c, 'interface': i}) for p, c, i in self.ports]
        props = [N('property', {'name': n, 'value': v}) for n, v in self.props]
        kids = [c.node() for c in self.children]
        links = [l.node() for l in self.links]
        ch = ports + props + kids + links
        if self.shuffle: ch = self.shuffle([ports, props, kids, links])
        return N(tag, {'id': self.id}, ch)

class Switch:
    kind = 'Switch'
    def __init__(self, id):
        self.id, self.parent = id, None
        self.children, self.rules, self.ports = [], [], []    # rules: (rule or None, component)
        self.shuffle = None
    def add(self, c): c.parent = self; self.children.append(c); return c
    def node(self):
        rules = [N('bindRule', {'rule': r, 'constituent': c}) if r is not None else N('defaultComponent', {'component': c})
                 for r, c in self.rules]
        ports = [N('switchPort', {'id': p}, [N('mapping', {'component': c, 'interface': i}) for c, i in m]) for p, m in self.ports]
        kids = [c.node() for c in self.children]
        ch = rules + kids + ports
        if self.shuffle: ch = self.shuffle([rules, kids, ports])
        return N('switch', {'id': self.id}, ch)

ROLE = {'onBegin': ('P', 'start'), 'onEnd': ('P', 'stop'), 'onAbort': ('P', 'abort'), 'onPause': ('P', 'pause'),
        'onResume': ('P', 'resume'), 'onBeginAttribution': ('A', 'start'), 'onEndAttribution': ('A', 'stop'),
        'onSelection': ('S', 'start'), 'onBeginSelection': ('S', 'start'), 'onEndSelection': ('S', 'stop'),
        'onLookAt': ('L', 'start'), 'onLookAway': ('L', 'stop')}
AROLE = {'start': ('P', 'start'), 'stop': ('P', 'stop'), 'abort': ('P', 'abort'), 'pause': ('P', 'pause'),
         'resume': ('P', 'resume'), 'set': ('A', 'start')}
TN = {'P': 'presentation', 'A': 'attribution', 'S': 'selection', 'L': 'lookat'}
OPN = ['eq', 'ne', 'lt', 'lte', 'gt', 'gte']

class Cond:
    """simple condition of a connector"""
    def __init__(self, role, custom=None, key=None):
        self.role, self.custom, self.key = role, custom, key
    def type(self): return self.custom or ROLE[self.role]
    def node(self):
        c = self.custom
        return N('simpleCondition', {'role': self.role, 'eventType': TN[c[0]] if c else None,
                                     'transition': (c[1] + 's') if c else None, 'key': self.key})

class Action:
    def __init__(self, role, custom=None, value=None, dur=None, delay=None):
        self.role, self.custom, self.value, self.dur, self.delay = role, custom, value, dur, delay
    def type(self): return self.custom or AROLE[self.role]
    def node(self):
        c = self.custom
        return N('simpleAction', {'role': self.role, 'eventType': TN[c[0]] if c else None, 'actionType': c[1] if c else None,
                                  'value': self.value, 'duration': self.dur, 'delay': self.delay})

class Atom:
    """assessment: operands ('role', r) or ('value', v)"""
    def __init__(self, l, op, r): self.l, self.op, self.r = l, op, r
    def node(self):
        f = lambda o: N('attributeAssessment', {'role': o[1]}) if o[0] == 'role' else N('valueAssessment', {'value': o[1]})
        return N('assessmentStatement', {'comparator': OPN[self.op]}, [f(self.l), f(self.r)])
    def atoms(self): return [self]

class Stmt:
    """compound statement"""
    def __init__(self, op, ch, neg=False): self.op, self.ch, self.neg = op, ch, neg
    def node(self):
        return N('compoundStatement', [('operator', self.op)] + ([('isNegated', 'true')] if self.neg else []), [c.node() for c in self.ch])
    def atoms(self): return [a for c in self.ch for a in c.atoms()]

class CCond:
    """compound condition: items are Cond, CCond, Atom, Stmt"""
    def __init__(self, op, items): self.op, self.items = op, items
    def node(self): return N('compoundCondition', {'operator': self.op}, [c.node() for c in self.items])

class CAct:
    def __init__(self, op, items): self.op, self.items = op, items
    def node(self): return N('compoundAction', {'operator': self.op}, [c.node() for c in self.items])

class Connector:
    def __init__(self, id, cond, act, params=()):
        self.id, self.cond, self.act, self.params = id, cond, act, list(params)
    def node(self):
        return N('causalConnector', {'id': self.id}, [N('connectorParam', {'name': p}) for p in self.params] + [self.cond.node(), self.act.node()])
    def conds(self):
        """[(Cond, [assessments of each enclosing compound condition, outermost first])]"""
        out = []
        def go(c, path):
            if isinstance(c, Cond): out.append((c, path))
            elif isinstance(c, CCond):
                p = path + [[x for x in c.items if isinstance(x, (Atom, Stmt))]]
                for x in c.items:
                    if isinstance(x, (Cond, CCond)): go(x, p)
        go(self.cond, [])
        return out
    def acts(self):
        out = []
        def go(a):
            if isinstance(a, Action): out.append(a)
            else:
                for x in a.items: go(x)
        go(self.act)
        return out
    def tests(self):
        out = []
        def go(c):
            if isinstance(c, CCond):
                for x in c.items: go(x)
            elif isinstance(c, (Atom, Stmt)):
                for a in c.atoms():
                    for o in (a.l, a.r):
                        if o[0] == 'role' and o[1] not in out: out.append(o[1])
        go(self.cond)
        return out

class Bind:
    def __init__(self, role, comp, iface=None, params=()):
        self.role, self.comp, self.iface, self.params = role, comp, iface, list(params)
    def node(self):
        return N('bind', {'role': self.role, 'component': self.comp, 'interface': self.iface},
                 [N('bindParam', {'name': n, 'value': v}) for n, v in self.params])

class Link:
    def __init__(self, conn, binds, params=(), id=None):
        self.conn, self.binds, self.params, self.id = conn, binds, list(params), id
    def node(self):
        return N('link', {'id': self.id, 'xconnector': self.conn if isinstance(self.conn, str) else self.conn.id},
                 [N('linkParam', {'name': n, 'value': v}) for n, v in self.params] + [b.node() for b in self.binds])

class Doc:
    def __init__(self):
        self.id = 'doc'
        self.rules, self.conns, self.descs, self.regions, self.trans = [], [], [], [], []
        self.body = Context('body')
        self.head_extra = []
    def head(self):
        """list of base elements"""
        ch = []
        if self.rules: ch.append(N('ruleBase', {}, [rule_node(r) for r in self.rules]))
        if self.trans: ch.append(N('transitionBase', {}, [N('transition', at) for at in self.trans]))
        if self.regions: ch.append(N('regionBase', {}, [r.node() for r in self.regions]))
        if self.descs: ch.append(N('descriptorBase', {}, [N('descriptor', [(k, v) for k, v in at if k[0] != '@'], [N('descriptorParam', {'name': n, 'value': v})
                                   for k, v2 in at if k == '@params' for n, v in v2]) for at in self.descs]))
        if self.conns: ch.append(N('connectorBase', {}, [c.node() for c in self.conns]))
        return ch + self.head_extra
    def tree(self):
        ch = [N('head', {}, self.head())] if self.head() else []
        return N('ncl', {'id': self.id}, ch + [self.body.node('body')])
    def xml(self):
        return '<?xml version="1.0" encoding="UTF-8"?>\n' + self.tree().xml()
    def medias(self):
        out = []
        def go(c):
            for x in c.children:
                if x.kind == 'Media': out.append(x)
                else: go(x)
        go(self.body)
        return out

class Rule:
    def __init__(self, id, var, op, val): self.id, self.var, self.op, self.val = id, var, op, val
class CRule:
    def __init__(self, id, op, ch): self.id, self.op, self.ch = id, op, ch
def rule_node(r):
    if isinstance(r, Rule): return N('rule', {'id': r.id, 'var': r.var, 'comparator': OPN[r.op], 'value': r.val})
    return N('compositeRule', {'id': r.id, 'operator': r.op}, [rule_node(x) for x in r.ch])
CT = {'not': 3, 'and': 4, 'or': 5}
def rule_pred(r):
    if isinstance(r, Rule): return {'t': 2, 'l': '$__settings__.' + r.var, 'op': r.op, 'r': r.val}
    return {'t': CT[r.op], 'c': [rule_pred(x) for x in r.ch]}

class Region:
    def __init__(self, id, at, ch=()): self.id, self.at, self.ch = id, at, list(ch)
    def node(self): return N('region', [('id', self.id)] + list(self.at), [c.node() for c in self.ch])

# -- what the loaded document must look like ---------------------------------
SETTINGS_TYPES = ('application/x-ginga-settings', 'application/x-ncl-settings')

def lround(x):
    import math
    return int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)

def pct(s, base):
    s = s.strip()
    v = float(s[:-1]) / 100. * base if s.endswith('%') else float(s)
    return min(max(lround(v), 0), 2 ** 31 - 1)

def region_rects(doc, W, H):
    """{region id: (x, y, w, h)} in pixels"""
    out = {}
    def go(r, px, py, pw, ph):
        a = dict(r.at)
        w = pct(a['width'], pw) if 'width' in a else pw
        h = pct(a['height'], ph) if 'height' in a else ph
        x, y = px, py
        if 'left' in a: x += pct(a['left'], pw)
        elif 'right' in a: x += pw - w - pct(a['right'], pw)
        if 'top' in a: y += pct(a['top'], ph)
        elif 'bottom' in a: y += ph - h - pct(a['bottom'], ph)
        out[r.id] = (x, y, w, h)
        for c in r.ch: go(c, x, y, w, h)
    for r in doc.regions: go(r, 0, 0, W, H)
    return out

def g6(x):
    s = '%g' % x
    return s

def expect(doc, W, H, uri=lambda src: src):
    """structure of the loaded document; {id: {...}}"""
    o = {}
    root = o['__root__'] = dict(kind='Context', parent=None, aliases=[[doc.id, None]] if doc.id else [], events={('P', '@lambda'): (0, None, '', None)},
                                props={}, ports=[], links=[], children=['__settings__'])
    sett = o['__settings__'] = dict(kind='MediaSettings', parent='__root__', aliases=[], props={'type': SETTINGS_TYPES[0]}, events={
        ('P', '@lambda'): (0, None, '', None), ('A', 'service.currentFocus'): (0, None, '', None)})
    if doc.body.id: root['aliases'].append([doc.body.id, None])
    real = {}         # xml id -> object id
    real[doc.body.id] = '__root__'
    refer_of = {}
    def scan(c):
        for x in c.children:
            if x.kind == 'Media':
                if x.refer: refer_of[x.id] = x.refer; real[x.id] = x.refer
                else: real[x.id] = '__settings__' if x.type in SETTINGS_TYPES else x.id
            else: real[x.id] = x.id; scan(x)
    scan(doc.body)
    for k in list(real):
        if k in refer_of: real[k] = real.get(refer_of[k], refer_of[k])
    def ev(id, T, e, b=0, n=None, lab='', key=None): o[id]['events'].setdefault((T, e), (b, n, lab, key))
    def mk(id, kind, parent):
        o.setdefault(id, dict(kind=kind, parent=None, aliases=[], events={('P', '@lambda'): (0, None, '', None)}, props={}))
        o[id]['kind'] = kind
        if kind != 'Media': o[id]['children'] = []
        if kind == 'Context': o[id].update(ports=[], links=[])
        if kind == 'Switch': o[id].update(rules=[], swports={})
        o[id]['parent'] = parent
        o[parent]['children'].append(id)
    def build(c, cid):
        if c.kind == 'Context':
            for n, v in c.props:
                ev(cid, 'A', n)
                if v: o[cid]['props'][n] = v
        for x in c.children:
            if x.kind == 'Media':
                rid = real[x.id]
                if rid not in o: o[rid] = dict(kind='Media', parent=None, aliases=[], props={}, events={('P', '@lambda'): (0, None, '', None)})
                if x.refer or rid == '__settings__':
                    al = [x.id, cid]
                    if al not in o[rid]['aliases']: o[rid]['aliases'].append(al)
                else:
                    mk(rid, 'Media', cid)
                    o[rid]['props']['uri'] = uri(x.src) if x.src else ''
                    o[rid]['props']['type'] = x.type or ''
                for a, b, e, l in x.areas:
                    if l: ev(rid, 'P', a, 0, None, l)
                    else: ev(rid, 'P', a, ptime(b) if b else 0, ptime(e) if e else None)
                for n, v in x.props:
                    ev(rid, 'A', n)
                    if v: o[rid]['props'][n] = v
            else:
                mk(x.id, x.kind, cid)
                build(x, x.id)
    build(doc.body, '__root__')
    # descriptors
    rects = region_rects(doc, W, H)
    D = {}
    for at in doc.descs:
        d = {k: v for k, v in at if k[0] != '@'}
        for k, v in at:
            if k == '@params': d.update(dict(v))
        if d.get('region'):
            reg = [r for r in all_regions(doc) if r.id == d['region']][0]
            for k, v in reg.at:
                d[k] = v
            x, y, w, h = rects[reg.id]
            d.update(left=g6(x / W * 100.) + '%', top=g6(y / H * 100.) + '%', width=g6(w / W * 100.) + '%', height=g6(h / H * 100.) + '%')
            for n, v in (('right', (W - x - w) / W * 100.), ('bottom', (H - y - h) / H * 100.)):
                if n in dict(reg.at):
                    d.pop(n, None)
                    if v >= 0: d[n] = g6(v) + '%'
            d['zOrder'] = '*'
        for t in ('transIn', 'transOut'):
            if d.get(t):
                tr = dict([x for x in doc.trans if dict(x)['id'] == d[t]][0])
                g = lambda k, df: tr.get(k, df)
                d[t] = ("{type='%s',subtype='%s',dur='%s',startProgress='%s',endProgress='%s',direction='%s',fadeColor='%s',"
                        "horzRepeat='%s',vertRepeat='%s',borderWidth='%s',borderColor='%s'}") % (
                    tr['type'], g('subtype', ''), g('dur', '0'), g('startProgress', '0'), g('endProgress', '0'), g('direction', 'forward'),
                    g('fadeColor', ''), g('horzRepeat', '0'), g('vertRepeat', '0'), g('borderWidth', '0'), g('borderColor', ''))
        D[d['id']] = d
    for m in doc.medias():
        if m.desc:
            rid = real[m.id]
            for k, v in D[m.desc].items():
                if k in ('id', 'region'): continue
                if ('A', k) in o[rid]['events']: continue
                ev(rid, 'A', k)
                o[rid]['props'][k] = v
    # names
    def comp(scope, name):
        """object id a component name denotes"""
        return real[name]
    nodes = {'__root__': doc.body}
    portdef = {}
    def scan2(c, cid):
        nodes[cid] = c
        if c.kind == 'Context':
            for p, cc, i in c.ports: portdef[p] = (cid, cc, i)
        for x in c.children:
            if x.kind != 'Media': scan2(x, x.id)
    scan2(doc.body, '__root__')
    def iface(scope, cname, i):
        oid = comp(scope, cname)
        if not i: return [oid, 'P', '@lambda']
        k = o[oid]['kind']
        if k in ('Media', 'MediaSettings'):
            return [oid, 'P', i] if ('P', i) in o[oid]['events'] else [oid, 'A', i]
        if k == 'Switch': return [oid, 'P', i]
        if oid == scope: return [oid, 'A', i]
        if i in portdef and portdef[i][0] == oid: return iface(oid, portdef[i][1], portdef[i][2])
        return [oid, 'A', i]
    # switch ports are events
    for cid, c in nodes.items():
        if c.kind == 'Switch':
            for p, m in c.ports: o[cid]['events'][('P', p)] = (0, None, p, None)
    for cid, c in nodes.items():
        if c.kind == 'Switch':
            for p, m in c.ports: o[cid]['swports'][p] = [iface(cid, a, b) for a, b in m]
            rules = {r.id: r for r in all_rules(doc)}
            for r, x in c.rules:
                if r is not None:
                    p = rule_pred(rules[r])
                    if p['t'] >= 3 and not p['c']: p = {'t': 0}
                    o[cid]['rules'].append([comp(cid, x), p])
            for r, x in c.rules:
                if r is None: o[cid]['rules'].append([comp(cid, x), {'t': 1}])
        else:
            for p, a, b in c.ports:
                e = iface(cid, a, b)
                if e not in o[cid]['ports']: o[cid]['ports'].append(e)
            for l in c.links: o[cid]['links'].append(link(doc, l, cid, iface, o))
    return o

def all_regions(doc):
    out = []
    def go(r):
        out.append(r)
        for c in r.ch: go(c)
    for r in doc.regions: go(r)
    return out

def all_rules(doc):
    out = []
    def go(r):
        out.append(r)
        if isinstance(r, CRule):
            for c in r.ch: go(c)
    for r in doc.rules: go(r)
    return out

def ptime(s):
    from model import parse_time
    return parse_time(s)

def stmt_pred(s, tr):
    if isinstance(s, Atom):
        f = lambda x: tr.get(x[1], '$' + x[1]) if x[0] == 'role' else (tr.get(x[1][1:], x[1]) if x[1].startswith('$') else x[1])
        return {'t': 2, 'l': f(s.l), 'op': s.op, 'r': f(s.r)}
    p = {'t': CT[s.op], 'c': [stmt_pred(c, tr) for c in s.ch]}
    return {'t': 3, 'c': [p]} if s.neg else p

def link(doc, l, cid, iface, o):
    conn = l.conn
    conds, acts, tests = conn.conds(), conn.acts(), conn.tests()
    roles = {}
    for c, path in conds: roles.setdefault(c.role, ('c', c, path))
    for a in acts: roles.setdefault(a.role, ('a', a, None))
    tmap, gmap = {}, {}
    for b in l.binds:
        if b.role in roles: continue
        e = iface(cid, b.comp, b.iface)
        (tmap if b.role in tests else gmap)[b.role] = '$%s.%s' % (e[0], e[2]) if e[1] == 'A' else '$' + fullid(e)
    for b in l.binds:
        if b.role not in roles and b.role in tests:
            for n, v in b.params: tmap.setdefault(n, v)
    lp = dict(l.params)
    def par(ref, b):
        if not ref or not ref.startswith('$'): return ref or ''
        n = ref[1:]
        bp = dict(b.params)
        if n in bp: r = bp[n]
        elif n in lp: r = lp[n]
        else: return ''
        if r.startswith('$') and r[1:] in gmap: return gmap[r[1:]]
        return r
    C, A = [], []
    for b in l.binds:
        if b.role not in roles: continue
        k, x, path = roles[b.role]
        T, tr = x.type()
        e = iface(cid, b.comp, b.iface)
        v = ''
        if T == 'A': v = par(getattr(x, 'value', None), b)
        elif T == 'S':
            v = par(getattr(x, 'key', None), b)
            o[e[0]]['events'].setdefault(('S', v), (0, None, '', v))
            e = [e[0], 'S', v]
        elif T == 'L':
            o[e[0]]['events'].setdefault(('L', e[2]), (0, None, '', None))
            e = [e[0], 'L', e[2]]
        if k == 'c':
            groups = [[stmt_pred(s, tmap) for s in g] for g in path]
            if len(groups) <= 1:
                g = groups[0] if groups else []
                p = None if not g else g[0] if len(g) == 1 else {'t': 4, 'c': g}
            else:
                g = [g[0] if len(g) == 1 else {'t': 4, 'c': g} for g in groups if g]
                p = {'t': 4, 'c': g} if g else None
            C.append(dict(e=e, tr=tr, p=p, v=v))
        else:
            A.append({'e': e, 'tr': tr, 'p': None, 'v': v, 'dur': par(x.dur, b), 'del': par(x.delay, b)})
    return [C, A]

def fullid(e):
    oid, T, i = e
    if T == 'P': return oid + (i if i == '@lambda' else '@' + i)
    return oid + '.' + i

# -- comparison with the driver's dump ---------------------------------------
def norm_pred(p):
    if p is None: return None
    if p['t'] == 2: return (2, p['l'], p['op'], p['r'])
    return (p['t'],) + tuple(norm_pred(c) for c in p.get('c', []) or [])

def decode(x):
    from vt import dec
    if isinstance(x, str): return dec(x)
    if isinstance(x, list): return [decode(y) for y in x]
    if isinstance(x, dict): return {k: decode(v) for k, v in x.items()}
    return x

def diff(exp, dump):
    """first difference between the expected structure and the (decoded) dump, or None"""
    got = {}
    for d in dump['objects']:
        if d['id'] in got: return 'object %s occurs twice' % d['id']
        got[d['id']] = d
    if set(got) != set(exp):
        return 'objects: missing %s, unexpected %s' % (sorted(set(exp) - set(got)), sorted(set(got) - set(exp)))
    for id, e in exp.items():
        g = got[id]
        def bad(what, a, b): return '%s of %s: expected %r, loaded %r' % (what, id, a, b)
        if g['kind'] != e['kind']: return bad('kind', e['kind'], g['kind'])
        if g.get('parent') != e['parent']: return bad('parent', e['parent'], g.get('parent'))
        if [list(x) for x in g['aliases']] != e['aliases'] and not (id == '__settings__' and sorted(map(list, g['aliases'])) == sorted(e['aliases'])): return bad('aliases', e['aliases'], g['aliases'])
        ge = {}
        for x in g['events']:
            n = int(x['n'])
            if (x['t'], x['id']) in ge: return bad('duplicate event', None, x)
            ge[(x['t'], x['id'])] = (int(x['b']), None if n < 0 else n, x.get('lab', ''), x.get('key') if x['t'] == 'S' else None)
        if ge != e['events']:
            for k in sorted(set(ge) | set(e['events'])):
                if ge.get(k) != e['events'].get(k): return bad('event %s' % (k,), e['events'].get(k), ge.get(k))
        ep = {k: v for k, v in e['props'].items() if v != '' and k != 'zOrder'}
        gp = {k: v for k, v in g['props'].items() if v != '' and k != 'zOrder'}
        if ep != gp:
            for k in sorted(set(ep) | set(gp)):
                if ep.get(k) != gp.get(k): return bad('property ' + k, ep.get(k), gp.get(k))
        if 'children' in e and sorted(g.get('children', [])) != sorted(e['children']): return bad('children', sorted(e['children']), sorted(g.get('children', [])))
        if e['kind'] == 'Context':
            if [list(x) for x in g['ports']] != e['ports']: return bad('ports', e['ports'], g['ports'])
            ll = [([(tuple(c['e']), c['tr'], norm_pred(c['p'])) for c in cs],
                   [(tuple(a['e']), a['tr'], a['v'] if a['e'][1] == 'A' else '', a['dur'], a['del']) for a in as_]) for cs, as_ in g['links']]
            el = [([(tuple(c['e']), c['tr'], norm_pred(c['p'])) for c in cs],
                   [(tuple(a['e']), a['tr'], a['v'] if a['e'][1] == 'A' else '', a['dur'], a['del']) for a in as_]) for cs, as_ in e['links']]
            if len(ll) != len(el): return bad('number of links', len(el), len(ll))
            for i, (a, b) in enumerate(zip(el, ll)):
                if a != b: return bad('link %d' % i, a, b)
        if e['kind'] == 'Switch':
            gr = [(c, norm_pred(p)) for c, p in g['rules']]
            er = [(c, norm_pred(p)) for c, p in e['rules']]
            if gr != er: return bad('rules', er, gr)
            gs = {l: [list(x) for x in es] for l, es in g['swports']}
            if gs != e['swports']: return bad('switch ports', e['swports'], gs)
    return None
