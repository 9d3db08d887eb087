from engine import *
ID = 'C11'
QUICK, THOROUGH = 2500, 60000
RULE = ('random documents of every size (up to 150 media, nesting to 6, every element of the language, all parameter and ghost references) in random spellings (attribute '
        'order, quotes, character references, comments, CDATA, white space, name-space declarations, sibling order), parsed from a file or a buffer on random screen sizes and '
        'compared object by object, event by event, property by property, link by link with the structure the document declares; non-trivial when the document has at least a '
        'link and ten elements')
KNOBS = [dict(), dict(medias=(10, 60), depth=5, links=(3, 12)), dict(medias=(30, 150), depth=3, links=(2, 8)), dict(desc=1, regions=1, trans=.9, extra=.8), dict(depth=6, ctx=.5, switch=.4, swport=.9),
         dict(refer=.8, settings=.9, refset=.6, refer_in_switch=.5), dict(compound=.95, assess=.95, ghosts=.9, multi=.6), dict(sel=.9, custom_role=.8, param=.9), dict(switch=.7, ruledepth=5), dict(shuffle=1, area=.95, label=.4, props=.95, real_props=.8)]

def check_zorder(d, dump):
    regs = {r.id: i for i, r in enumerate(spec.all_regions(d))}
    des = {dict(a)['id']: dict(a).get('region') for a in [[x for x in at if x[0] != '@params'] for at in d.descs]}
    got = {o['id']: o for o in dump['objects']}
    pairs = []
    for m in d.medias():
        if m.desc and des.get(m.desc) is not None and m.id in got and not any(n == 'zOrder' for n, _ in m.props):
            z = got[m.id]['props'].get('zOrder')
            if z is None: raise Violation('zOrder', '%s has no zOrder although its region %s gives one' % (m.id, des[m.desc]))
            pairs.append((regs[des[m.desc]], int(z), m.id))
    for a in pairs:
        for b in pairs:
            if (a[0] < b[0]) != (a[1] < b[1]) or (a[0] == b[0]) != (a[1] == b[1]):
                raise Violation('zOrder', 'regions of %s and %s are stacked against their order of declaration (%s, %s)' % (a[2], b[2], a, b))
    return len(pairs)

def measure(w, d):
    n = list(d.tree().walk())
    for e in n: w.count('elements: ' + e.tag)
    return len(n)

def case(w, i, rng):
    d = Gen(rng, **rng.choice(KNOBS)).doc()
    d.plain = not d.medias()
    t = d.tree()
    size = measure(w, d)
    k = rng.random()
    if k < .2: txt = d.xml()
    else:
        if rng.random() < .4: t.at.append(('xmlns', 'http://www.ncl.org.br/NCL3.0/EDTVProfile'))
        if rng.random() < .2: t.at.append(('title', 'a title'))
        txt = rng.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', '', '<!-- c -->\n']) + spec.render(t, rng)
    path = w.write('d.ncl', txt)
    W, H = rng.choice([(320, 240), (800, 600), (1920, 1080), (1, 1), (7, 1000)])
    w.note = dict(document=txt, screen=[W, H])
    s = w.session()
    buf = rng.random() < .35
    r = s.r('parsebuf', txt.encode(), W, H) if buf else s.r('parse', path, W, H)
    if r[0] != '1': raise Violation('refused', 'a valid document is refused: ' + r[1])
    dump = dump_of(s)
    uri = (lambda x: 'file://%s/%s' % (w.dir, x))
    e = spec.expect(d, W, H, uri=uri)
    df = spec.diff(e, dump)
    if df: raise Violation('structure', df)
    w.count('zorder pairs', check_zorder(d, dump))
    w.count('objects', len(e)); w.count('events', sum(len(o['events']) for o in e.values())); w.count('links', sum(len(o.get('links', ())) for o in e.values()))
    w.count('rules', sum(len(o.get('rules', ())) for o in e.values())); w.count('properties', sum(len(o['props']) for o in e.values()))
    w.count('documents over 300 elements', size > 300)
    s.cmd('unparse')
    if size >= 10 and any(o.get('links') for o in e.values()): w.seen(txt); w.sample(dict(document=txt[:1500]))

def dump_of(s):
    for t in s.cmd('dump', 'uri', 'type'):
        if t[0] == 'J': return spec.decode(json.loads(' '.join(t[1:])))
