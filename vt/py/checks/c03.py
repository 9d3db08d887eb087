from engine import *
ID = 'C03'
QUICK, THOROUGH = 3000, 50000
RULE = ('(a) random predicate trees (depth up to 6, all six comparisons, and/or/not, constants) over literals and references to existing, unset and '
        'unknown properties, evaluated and cloned while the properties are reassigned; (b) random documents with nested rules and assessments on links in '
        'lockstep with the reference interpreter; non-trivial when a tree has at least two operators or an assessment/rule decided something')
VALS = ['', 'a', 'b', 'B', 'ab', 'aa', '0', '1', '10', '9', '2', '-1', ' a', 'a ', 'true', 'false', 'é', 'z', '$', '$x', '$m1', 'a.b', '~', 'A', '\t', '$m1.x', '$m.2.x', '$set.st']
IDS = ['m1', 'm.2', 'set', 'c1', '__settings__', 'r3', 'm.2.x']
NAMES = ['x', 'y.z', 'st', 'x.y', 'p']
DOC = '''<ncl id="d"><head/><body id="b"><port id="p" component="m1"/>
<media id="m1"><property name="x" value="a"/><property name="p"/></media>
<media id="m.2"><property name="x" value="b"/><property name="y.z" value="10"/></media><media id="m.2.x"/>
<media id="r3" refer="m1"/>
<media id="set" type="application/x-ginga-settings"><property name="st" value="1"/></media>
<context id="c1"><property name="x" value="9"/></context></body></ncl>'''

def operand(r):
    k = r.random()
    if k < .5: return r.choice(VALS)
    if k < .93: return '$%s.%s' % (r.choice(IDS), r.choice(NAMES))
    return r.choice(['$none.x', '$m1', '$', '$.x', '$m1.', '$m.2'])

def tree(r, d):
    k = r.random()
    if d == 0 or k < .3:
        if r.random() < .12: return (r.choice('TF'),)
        return ('A', operand(r), r.randrange(6), operand(r))
    if k < .5: return ('N', tree(r, d - 1))
    if r.random() < .06: return (r.choice('CD'),) + tuple(wide(r))
    return (r.choice('CD'),) + tuple(tree(r, d - 1) for _ in range(r.choice([1, 2, 2, 3, 4])))

def wide(r):
    """many statements, all of them but one or two of the same value"""
    n = r.choice([6, 9, 17, 33, 70]); same = r.choice('TF')
    out = [(same,)] * n
    for _ in range(r.randint(1, 2)): out[r.randrange(n)] = ('A', operand(r), r.randrange(6), operand(r))
    return out

def toks(t):
    if t[0] in 'TF': return [t[0]]
    if t[0] == 'A': return ['A', t[1], str(t[2]), t[3]]
    return [t[0], str(len(t) - 1)] + [x for c in t[1:] for x in toks(c)]

def size(t): return 1 + sum(size(c) for c in t[1:]) if t[0] in 'NCD' else 0

def ev(t, val):
    k = t[0]
    if k == 'T': return True
    if k == 'F': return False
    if k == 'N': return not ev(t[1], val)
    if k == 'C': return all(ev(c, val) for c in t[1:])
    if k == 'D': return any(ev(c, val) for c in t[1:])
    l, r = [val(x).encode('utf8') for x in (t[1], t[3])]
    return [l == r, l != r, l < r, l <= r, l > r, l >= r][t[2]]

def case(w, i, rng):
    if i % 3 == 0:
        s = w.session()
        p = w.write('p.ncl', DOC)
        s.cmd('new', 100, 100, '', 0, 0, 0)
        s.r('start', p)
        props = {('m1', 'x'): 'a', ('m.2', 'x'): 'b', ('m.2', 'y.z'): '10', ('__settings__', 'st'): '1', ('c1', 'x'): '9'}
        canon = {'r3': 'm1', 'set': '__settings__'}
        def val(o):
            if not o.startswith('$'): return o
            for j in range(len(o)):
                if o[j] == '.':
                    id = o[1:j]
                    id = canon.get(id, id)
                    if id in ('m1', 'm.2', 'm.2.x', '__settings__', 'c1', '__root__', 'b'): return props.get((id, o[j + 1:]), '')
            return o
        hist = []
        for _ in range(rng.randint(10, 40)):
            if rng.random() < .35:
                id, n, v = rng.choice(['m1', 'm.2', 'c1', '__settings__', 'm.2.x']), rng.choice(NAMES), rng.choice(VALS)
                s.cmd('setprop', id, n, v, 0); props[(id, n)] = v; hist.append([id, n, v])
            t = tree(rng, rng.randint(0, 5))
            tk = toks(t)
            w.note = dict(document=DOC, assignments=hist, predicate=tk)
            r = s.r('pred', *tk)
            e = str(int(ev(t, val)))
            w.count('predicates')
            if size(t) > 1: w.seen(tk, hist[-3:]); w.sample(dict(predicate=' '.join(map(repr, tk)), value=e))
            if r[0] != e: raise Violation('predicate value', 'evaluates to %s, expected %s: %s' % (r[0], e, tk))
            if r[1] != e: raise Violation('copy of predicate', 'the copy evaluates to %s, expected %s: %s' % (r[1], e, tk))
            if r[2] != '1': raise Violation('copy of predicate', 'the copy reads differently: %s' % tk)
        s.cmd('del')
        return
    knobs = rng.choice([dict(assess=.95, compound=.8, links=(3, 7), props=.9, settings=.8), dict(switch=.6, ruledepth=4, settings=.95, swport=.4),
                        dict(assess=.9, compound=.9, ctx_props=.8, ghosts=.5, settings=.6)])
    lockcase(w, rng, knobs, dict(act=45, tick=45, key=6), types='PPAAA', nops=(8, 35),
             crit=lambda d: d.get('assessment-false', 0) + d.get('selected', 0) + d.get('nothing-selected', 0) > 0)
