from engine import *
import re
ID = 'C12'
QUICK, THOROUGH = 4000, 120000
CHUNK = 50
RULE = ('valid documents with random features must be accepted; then one violation of one of the kinds listed under "fault:" is put at a random place where it applies and the document must be '
        'refused with a message that names the element and the attribute, value or child at fault; non-trivial when a fault was put in')
# the language: element -> (parents, required attributes, optional attributes)
L_ = {
 'head': ('ncl', '', ''), 'body': ('ncl', '', 'id'),
 'regionBase': ('head', '', 'id device region'), 'region': ('region regionBase', 'id', 'title left right top bottom height width zIndex'),
 'descriptorBase': ('head', '', 'id'),
 'descriptor': ('descriptorBase', 'id', 'player explicitDur region freeze moveLeft moveRight moveUp moveDown focusIndex focusBorderColor focusBorderWidth focusBorderTransparency '
                'focusSrc focusSelSrc selBorderColor transIn transOut left right top bottom height width zIndex'),
 'descriptorParam': ('descriptor', 'name value', ''), 'connectorBase': ('head', '', 'id'), 'causalConnector': ('connectorBase', 'id', ''),
 'connectorParam': ('causalConnector', '', 'name type'), 'compoundCondition': ('causalConnector compoundCondition', '', 'operator delay'),
 'simpleCondition': ('causalConnector compoundCondition', 'role', 'eventType key transition delay min max qualifier'),
 'compoundAction': ('causalConnector compoundAction', '', 'operator delay'),
 'simpleAction': ('causalConnector compoundAction', 'role', 'eventType actionType duration value delay min max qualifier repeat repeatDelay by'),
 'compoundStatement': ('compoundCondition compoundStatement', 'operator', 'isNegated'), 'assessmentStatement': ('compoundCondition compoundStatement', 'comparator', ''),
 'attributeAssessment': ('assessmentStatement', 'role', 'eventType key attributeType offset'), 'valueAssessment': ('assessmentStatement', 'value', ''),
 'ruleBase': ('head', '', 'id'), 'compositeRule': ('ruleBase compositeRule', 'id operator', ''), 'rule': ('ruleBase compositeRule', 'id var comparator value', ''),
 'transitionBase': ('head', '', 'id'),
 'transition': ('transitionBase', 'id type', 'subtype dur startProgress endProgress direction fadeColor horzRepeat vertRepeat borderWidth borderColor'),
 'importBase': ('connectorBase descriptorBase regionBase ruleBase transitionBase fontBase', 'alias documentURI', 'region baseId'),
 'fontBase': ('head', '', ''), 'font': ('fontBase', 'fontFamily src', 'fontStyle fontWeight'),
 'context': ('body context switch', 'id', 'refer'), 'port': ('body context', 'id component', 'interface'), 'switch': ('body context switch', 'id', 'refer'),
 'switchPort': ('switch', 'id', ''), 'mapping': ('switchPort', 'component', 'interface'), 'bindRule': ('switch', 'constituent rule', ''),
 'defaultComponent': ('switch', 'component', ''), 'media': ('body context switch', 'id', 'src type descriptor refer instance'), 'area': ('media', 'id', 'begin end label'),
 'property': ('body context media', 'name', 'value'), 'link': ('body context', 'xconnector', 'id'), 'linkParam': ('link', 'name value', ''),
 'bind': ('link', 'role component', 'interface'), 'bindParam': ('bind', 'name value', ''), 'ncl': ('', '', 'id title schemaLocation xmlns'),
}
LANG = {k: (a.split(), b.split(), c.split()) for k, (a, b, c) in L_.items()}
ALLATTR = sorted(set(x for a, b, c in LANG.values() for x in b + c))
NONEMPTY = {('descriptorParam', 'name'), ('simpleCondition', 'role'), ('simpleAction', 'role'), ('attributeAssessment', 'role'), ('rule', 'var'), ('transition', 'type'), ('importBase', 'alias'),
            ('property', 'name'), ('linkParam', 'name'), ('bind', 'role'), ('bindParam', 'name')}
IDREF = {('descriptor', 'region'), ('descriptor', 'transIn'), ('descriptor', 'transOut'), ('port', 'component'), ('port', 'interface'), ('mapping', 'component'), ('mapping', 'interface'), ('bindRule', 'constituent'), ('bindRule', 'rule'),
         ('defaultComponent', 'component'), ('media', 'descriptor'), ('media', 'refer'), ('link', 'xconnector'), ('bind', 'component'), ('bind', 'interface')}
BADID = ['a b', 'x@y', 'a/b', 'a$b', 'a<b', 'é', 'a+b', 'a,b', 'a\tb', ' a', 'a ', '(a)', 'a"b', 'a%b', 'a&b', '*']
BADTIME = ['abc', '-1s', '1x', '1:2', '1:2:3:4', '::', '1s2', 's', '1 s ?', 'nan', 'inf', '--1s', '1..5s', '1e', '99999999999999999999999s']
REFS = {'xconnector': 'causalConnector', 'rule': 'rule compositeRule', 'descriptor': 'descriptor', 'region': 'region', 'transIn': 'transition', 'transOut': 'transition'}

def minimal(tag, r):
    """an element with its required attributes, ids fresh"""
    at = []
    for a in LANG[tag][1]:
        at.append((a, 'fresh%d' % r.randrange(10 ** 6) if a in ('id', 'alias', 'name', 'var', 'role') else 'and' if a == 'operator' else 'eq' if a == 'comparator' else 'v'))
    return N(tag, at)

def enrich(t, r):
    """optional attributes and elements without effect on the references"""
    for e in t.walk():
        if e.tag in ('regionBase', 'descriptorBase', 'connectorBase', 'ruleBase', 'transitionBase') and r.random() < .3: e.set('id', 'base%d' % r.randrange(10 ** 6))
        if e.tag == 'regionBase' and r.random() < .2: e.set('device', 'systemScreen(1)')
        if e.tag in ('simpleAction', 'simpleCondition') and r.random() < .2: e.set(*r.choice([('min', '1'), ('max', 'unbounded'), ('qualifier', 'par')]))
        if e.tag == 'simpleAction' and r.random() < .1: e.set(*r.choice([('repeat', '1'), ('repeatDelay', '1s'), ('by', '1')]))
        if e.tag in ('compoundAction', 'compoundCondition') and r.random() < .1: e.set('delay', '1s')
        if e.tag == 'connectorParam' and r.random() < .2: e.set('type', 'string')
        if e.tag == 'attributeAssessment' and r.random() < .3: e.set(*r.choice([('eventType', 'attribution'), ('attributeType', 'nodeProperty'), ('offset', '1'), ('key', 'RED')]))
        if e.tag == 'region' and r.random() < .2: e.set('title', 'a title')
        if e.tag == 'ncl' and r.random() < .3: e.set(*r.choice([('title', 't'), ('schemaLocation', 'x y')]))
        if e.tag == 'simpleCondition' and r.random() < .1 and not e.get('eventType') and e.get('role') in spec.ROLE:
            T, tr = spec.ROLE[e.get('role')]
            if T != 'L': e.set('eventType', spec.TN[T]); e.set('transition', tr + 's')
    return t

class NA(Exception): pass

def pick(r, l):
    l = list(l)
    if not l: raise NA()
    return r.choice(l)

def fault(kind, t, r):
    """puts one fault in; -> tokens that the message must contain (a tuple stands for alternatives)"""
    al = []
    def go(n, p, anc):
        al.append((n, p, anc))
        for c in n.ch: go(c, n, anc + [n])
    go(t, None, [])
    els = [n for n, _, _ in al]
    par = {id(n): p for n, p, _ in al}
    byid = {n.get('id'): n for n in els if n.get('id')}
    def of(*tags): return [n for n in els if n.tag in tags]
    fresh = 'zz%d' % r.randrange(10 ** 6)
    def ins(p, c): p.ch.insert(r.randint(0, len(p.ch)), c)
    if kind == 'unknown element':
        tag = r.choice(['bogus', 'Media', 'medias', 'regio', 'x-y', 'meta', 'importNCL', 'importedDocumentBase', 'causalconnector', 'text'])
        ins(pick(r, els), N(tag, {'id': fresh})); return ['<%s>' % tag]
    if kind == 'rename element':
        e = pick(r, [x for x in els if x.tag != 'ncl'])
        e.tag = 'bogus'; return ['<bogus>']
    if kind == 'wrong parent':
        p = pick(r, els)
        tag = pick(r, [k for k in LANG if p.tag not in LANG[k][0] and k != 'ncl'])
        ins(p, minimal(tag, r)); return ['<%s>' % tag, '<%s>' % p.tag]
    if kind == 'moved element':
        e = pick(r, [x for x in els if x.tag not in ('ncl', 'head', 'body') and par[id(x)].tag not in ('causalConnector', 'compoundCondition', 'compoundAction', 'compoundStatement', 'assessmentStatement')])
        inside = set(map(id, e.walk()))
        p = pick(r, [x for x in els if x.tag not in LANG[e.tag][0] and id(x) not in inside])
        par[id(e)].ch.remove(e); ins(p, e)
        return [('<%s>' % e.tag)] if True else 0
    if kind == 'root':
        tag = pick(r, ['body', 'head', 'media', 'context', 'region', 'link'])
        t.tag = tag; t.at = [(a, v) for a, v in t.at if a == 'id']; return ['<%s>' % tag]
    if kind == 'unknown attribute':
        e = pick(r, els)
        a = r.choice(['bogus', 'ID', 'Id', 'name ', 'x-y'] + ALLATTR).strip()
        if a in LANG[e.tag][1] + LANG[e.tag][2] or a == 'xmlns': raise NA()
        e.at.insert(r.randint(0, len(e.at)), (a, r.choice(['', 'v', '1']))); return ["'%s'" % a, '<%s>' % e.tag]
    if kind == 'missing attribute':
        e, a = pick(r, [(x, a) for x in els for a in LANG[x.tag][1]])
        if e.get(a) is None: raise NA()
        e.set(a, None); return ["'%s'" % a, '<%s>' % e.tag]
    if kind == 'empty attribute':
        e, a = pick(r, [(x, a) for x in els for a, v in x.at if (x.tag, a) in NONEMPTY | IDREF or a == 'id'])
        e.at = [(k, '' if k == a else v) for k, v in e.at]; return ["'%s'" % a, '<%s>' % e.tag]
    if kind == 'duplicate id':
        a, b = pick(r, els), pick(r, els)
        if a is b or not a.get('id') or not b.get('id'): raise NA()
        v = a.get('id'); b.at = [(k, v if k == 'id' else x) for k, x in b.at]; return ["'%s'" % v, "'id'"]
    if kind == 'reserved id':
        a = pick(r, [x for x in els if x.get('id')])
        v = r.choice(['__root__', '__settings__']); a.at = [(k, v if k == 'id' else x) for k, x in a.at]; return ["'%s'" % v, "'id'", '<%s>' % a.tag]
    if kind == 'ill-formed name':
        e, a = pick(r, [(x, a) for x in els for a, v in x.at if (x.tag, a) in NONEMPTY or a == 'id'])
        v = r.choice(BADID); e.at = [(k, v if k == a else x) for k, x in e.at]; return ["'%s'" % a, '<%s>' % e.tag]
    if kind == 'dangling reference':
        e, a = pick(r, [(x, a) for x in els for a, v in x.at if (x.tag, a) in IDREF])
        e.at = [(k, fresh if k == a else x) for k, x in e.at]; return ["'%s'" % a, fresh, '<%s>' % e.tag]
    if kind == 'ill-kinded reference':
        e, a = pick(r, [(x, a) for x in els for a, v in x.at if a in REFS])
        o = pick(r, [x for x in els if x.get('id') and x.tag not in REFS[a].split()])
        v = o.get('id'); e.at = [(k, v if k == a else x) for k, x in e.at]; return ["'%s'" % a, v, '<%s>' % e.tag]
    if kind == 'reference to a non-component':
        e, a = pick(r, [(x, a) for x in els for a, v in x.at if a in ('component', 'constituent') and x.tag != 'defaultComponent' or (x.tag, a) == ('defaultComponent', 'component')])
        o = pick(r, [x for x in els if x.get('id') and x.tag not in ('media', 'context', 'switch', 'body', 'ncl')])
        v = o.get('id'); e.at = [(k, v if k == a else x) for k, x in e.at if k != 'interface']; return ["'%s'" % a, v, '<%s>' % e.tag]
    if kind == 'component of another scope':
        e, a, anc = pick(r, [(x, a, anc) for x, p, anc in al for a, v in x.at if a in ('component', 'constituent')])
        scope = [x for x in anc if x.tag in ('body', 'context', 'switch')][-1]
        refd = set(x.get('refer') for x in els if x.get('refer'))
        sett = [x.get('id') for x in els if x.tag == 'media' and x.get('type') in spec.SETTINGS_TYPES]
        o = pick(r, [x for x in els if x.tag in ('media', 'context', 'switch') and x not in scope.ch and x is not scope and not x.get('refer') and x.get('id') not in refd and x.get('id') not in sett])
        v = o.get('id'); e.at = [(k, v if k == a else x) for k, x in e.at if k != 'interface']; return ["'%s'" % a, v, '<%s>' % e.tag]
    if kind == 'interface of another object':
        e = pick(r, [x for x in els if x.tag in ('port', 'mapping', 'bind') and (x.get('interface') or r.random() < .5)])
        m = byid.get(e.get('component'))
        if m is None or m.tag not in ('media', 'context', 'switch', 'body') or m.get('refer') or m.get('type') in spec.SETTINGS_TYPES or any(x.get('refer') == m.get('id') for x in els): raise NA()
        ch = [x for x in m.ch if not isinstance(x, str)]
        o = [x for x in els if x.tag in ('area', 'port', 'switchPort') and x not in ch and x.get('id') not in [y.get('name') for y in ch]]
        if r.random() < .5: o = [x for x in o if x.tag == {'media': 'area', 'context': 'port', 'body': 'port', 'switch': 'switchPort'}[m.tag]] or o
        if e.tag == 'bind' and r.random() < .3: o = [x for x in o if any(e in l.ch for l in els if l.tag == 'link' and any(l in y.ch and x in y.ch for y in els))] or o      # a port beside the link
        o = pick(r, o)
        v = o.get('id'); e.at = [x for x in e.at if x[0] != 'interface'] + [('interface', v)]; return ["'interface'", v, '<%s>' % e.tag]
    if kind == 'refer':
        m = pick(r, [x for x in of('media') if x.get('src') is None and x.get('type') is None])
        k = r.randrange(4)
        if k == 0:
            if not m.get('refer'): raise NA()
            m.set(*r.choice([('src', 'x.png'), ('type', 'text/plain')])); return ["'refer'", ("'src'", "'type'"), '<media>']
        used = set(x.get('refer') for x in els if x.get('refer'))
        if k == 1: o = pick(r, [x for x in els if x.get('id') and x.tag not in ('media',)])
        elif k == 2:
            o = pick(r, [x for x in of('media') if x.get('refer') and x is not m])
            if m.get('id') in used: raise NA()
        else: o = m
        if k != 2 and m.get('id') in used: raise NA()
        v = o.get('id'); m.set('refer', v); return ["'refer'", v, '<media>']
    if kind == 'bad value':
        c = [(x, 'comparator', ['', 'equal', '==', 'EQ', 'eq ', 'le', 'ge', 'lt,gt']) for x in of('rule', 'assessmentStatement')]
        c += [(x, 'operator', ['', 'xor', 'AND', 'nand', '&', 'par']) for x in of('compositeRule', 'compoundStatement')]
        c += [(x, 'isNegated', ['', 'yes', 'maybe', '2', 'truee', 'falso']) for x in of('compoundStatement')]
        for x in of('simpleCondition', 'simpleAction'):
            if x.get('role') not in spec.ROLE and x.get('role') not in spec.AROLE:
                c += [(x, 'eventType', ['', 'presentatio', 'Presentation', 'sel', 'start']), (x, 'transition' if x.tag == 'simpleCondition' else 'actionType', ['', 'begin', 'Starts', 'set', 'stopp'])] * 2
            else:
                T, tr = spec.ROLE[x.get('role')] if x.tag == 'simpleCondition' else spec.AROLE[x.get('role')]
                c += [(x, 'eventType', [v for v in spec.TN.values() if v != spec.TN[T]] + ['x']),
                      (x, 'transition' if x.tag == 'simpleCondition' else 'actionType', [v for v in ['start', 'stop', 'abort', 'pause', 'resume', 'starts', 'stops'] if v.rstrip('s') != tr.rstrip('s')])]
        c += [(x, k, BADTIME) for x in of('area') if not x.get('label') for k in ('begin', 'end')]
        e, a, vs = pick(r, c)
        v = r.choice(vs); e.set(a, v); return ["'%s'" % a, "'%s'" % v, '<%s>' % e.tag]
    if kind == 'custom role incomplete':
        e = pick(r, [x for x in of('simpleCondition', 'simpleAction') if x.get('eventType') and x.get('role') not in spec.ROLE and x.get('role') not in spec.AROLE])
        a = r.choice(['eventType', 'transition' if e.tag == 'simpleCondition' else 'actionType'] + (['value'] if e.get('eventType') == 'attribution' and e.tag == 'simpleAction' else []))
        e.set(a, None); return ["'%s'" % a, '<%s>' % e.tag]
    if kind == 'set without value':
        e = pick(r, [x for x in of('simpleAction') if x.get('role') == 'set' and x.get('value') is not None]); e.set('value', None); return ["'value'", '<simpleAction>']
    if kind == 'label and time':
        e = pick(r, [x for x in of('area')])
        if e.get('label'): a = r.choice(['begin', 'end']); e.set(a, '1s')
        elif e.get('begin') or e.get('end'): e.set('label', 'l')
        else: raise NA()
        return ["'label'", ("'begin'", "'end'"), '<area>']
    if kind == 'missing child':
        c = []
        for x in of('causalConnector'):
            for tags in (('simpleCondition', 'compoundCondition'), ('simpleAction', 'compoundAction')):
                c.append((x, [y for y in x.ch if y.tag not in tags], ['<causalConnector>', '<simpleCondition>' if 'simpleCondition' in tags else '<simpleAction>']))
        for x in of('compoundStatement'):
            c.append((x, x.ch[:0] if x.get('operator') == 'not' else x.ch[:1], ['<compoundStatement>']))
        for x in of('assessmentStatement'):
            c.append((x, x.ch[:1] if r.random() < .7 else [], ['<assessmentStatement>']))
        e, ch, tk = pick(r, c)
        e.ch = ch; return tk
    if kind == 'too many children':
        c = [(x, N('valueAssessment', {'value': 'v'})) for x in of('assessmentStatement')]
        c += [(x, N('assessmentStatement', {'comparator': 'eq'}, [N('valueAssessment', {'value': 'v'}), N('valueAssessment', {'value': 'w'})])) for x in of('compoundStatement') if x.get('operator') == 'not']
        c += [(x, N('rule', {'id': fresh, 'var': 'x', 'comparator': 'eq', 'value': 'v'})) for x in of('compositeRule') if x.get('operator') == 'not']
        e, y = pick(r, c); e.ch.append(y); return ['<%s>' % e.tag, '<%s>' % y.tag]
    if kind == 'unbound role':
        l = pick(r, of('link'))
        k = byid.get(l.get('xconnector'))
        roles = set(x.get('role') for x in k.walk() if x.tag in ('simpleCondition', 'simpleAction', 'attributeAssessment'))
        b = pick(r, [x for x in l.ch if x.tag == 'bind' and x.get('role') in roles])
        l.ch = [x for x in l.ch if not (x.tag == 'bind' and x.get('role') == b.get('role'))]; return [b.get('role'), '<link>']
    if kind == 'role twice':
        k = byid.get(pick(r, of('link')).get('xconnector'))
        up = [(x, y) for x in k.walk() if x.tag in ('compoundCondition', 'compoundAction') for y in x.ch if getattr(y, 'tag', '') in ('simpleCondition', 'simpleAction')]
        x, y = pick(r, up)
        x.ch.insert(r.randint(0, len(x.ch)), y.copy()); return [y.get('role'), '<link>']
    if kind == 'interface of the wrong kind':
        l = pick(r, of('link'))
        k = byid.get(l.get('xconnector'))
        ty = {x.get('role'): (spec.ROLE.get(x.get('role')) or spec.AROLE.get(x.get('role')) or ((x.get('eventType') or '')[:1].upper(), 0))[0] for x in k.walk() if x.tag in ('simpleCondition', 'simpleAction')}
        b = pick(r, [x for x in l.ch if x.tag == 'bind' and x.get('role') in ty])
        m = byid.get(b.get('component'))
        if m is None or m.tag != 'media': raise NA()
        T = ty[b.get('role')]
        areas, props = [x.get('id') for x in m.ch if x.tag == 'area'], [x.get('name') for x in m.ch if x.tag == 'property']
        props = [p for p in props if p not in areas]
        i = pick(r, [(i) for i in (props if T == 'P' else areas + [None] if T == 'A' else areas + props)])
        b.set('interface', i)
        return ["'interface'", '<bind>'] + ([i] if i else [])
    raise AssertionError(kind)

KINDS = ['unknown element', 'rename element', 'wrong parent', 'moved element', 'root', 'unknown attribute', 'missing attribute', 'empty attribute', 'duplicate id', 'reserved id', 'ill-formed name',
         'dangling reference', 'dangling reference', 'ill-kinded reference', 'reference to a non-component', 'component of another scope', 'interface of another object', 'refer', 'bad value', 'bad value', 'custom role incomplete',
         'set without value', 'label and time', 'missing child', 'too many children', 'unbound role', 'role twice', 'interface of the wrong kind']

def parse(s, w, rng, txt):
    if rng.random() < .5: return s.r('parsebuf', txt.encode(), 320, 240)
    return s.r('parse', w.write('d.ncl', txt), 320, 240)

def broken(w, s, rng, txt):
    """texts that are not XML: each is explained for itself, whatever failed before"""
    lines = txt.split('\n')
    cut = txt[:rng.randint(2, len(txt.rstrip()) - 1)]
    for k, x in rng.choice([[('cut', cut), ('nothing', '')], [('nothing', ''), ('cut', cut)], [('cut', cut), ('blank', '\n' * rng.randint(1, 3))], [('cut', cut), ('nothing', ''), ('cut', cut)]]):
        w.note = dict(fault='not XML', document=x)
        r = parse(s, w, rng, x)
        if r[0] != '0' or not r[1]: raise Violation('accepted: not XML', 'a text that is no XML document is accepted or refused without a message: %s' % r)
        n = re.search(r'at line (\d+)', r[1])
        if n and not 1 <= int(n.group(1)) <= x.count('\n') + 1: raise Violation('message: not XML', 'a text of %d lines is refused because of line %s: %s' % (x.count('\n') + 1, n.group(1), r[1]))
        w.count('not XML: ' + k)

def case(w, i, rng):
    s = w.session()
    if rng.random() < .1: broken(w, s, rng, '<?xml version="1.0"?>\n\n\n\n<ncl>\n\n\n<head>\n\n</head>\n</ncl>')
    knobs = rng.choice([dict(desc=.8, regions=.8, trans=.5, extra=.5), dict(refer=.5, settings=.6, switch=.5), dict(compound=.9, assess=.9), dict(custom_role=.7, sel=.6), dict(area=.95, label=.4, depth=3),
                        dict(switch=.7, swport=.9, ruledepth=4, refer=.4), dict()])
    d = Gen(rng, **dict(dict(medias=(2, 5), links=(1, 3)), **knobs)).doc()
    t = enrich(d.tree(), rng)
    txt = t.xml()
    w.note = dict(document=txt)
    r = parse(s, w, rng, txt)
    if r[0] != '1': raise Violation('refused', 'a valid document is refused: ' + r[1])
    s.cmd('unparse')
    w.count('accepted')
    for _ in range(4):
        kind = rng.choice(KINDS)
        c = t.copy()
        try: tokens = fault(kind, c, rng)
        except NA: continue
        txt = '<?xml version="1.0"?>\n' + (c.xml() if rng.random() < .7 else spec.render(c, rng))
        w.note = dict(fault=kind, message_must_name=tokens, document=txt)
        r = parse(s, w, rng, txt)
        if r[0] != '0': raise Violation('accepted: ' + kind, 'a document with a fault (%s: %s) is accepted' % (kind, tokens))
        for k in tokens:
            if not any(x in r[1] for x in (k if isinstance(k, tuple) else (k,))):
                raise Violation('message: ' + kind, 'the message for "%s" does not name %s: %s' % (kind, k, r[1]))
        w.count('fault: ' + kind)
        w.seen(kind, txt); w.sample(dict(fault=kind, message=r[1]))
