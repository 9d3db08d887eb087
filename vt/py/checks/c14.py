from engine import *
ID = 'C14'
QUICK, THOROUGH = 4000, 60000
RULE = ('random document in which most media are presented through references in several contexts and switches (anchors and properties on either side); '
        'the loaded object is compared with the declaration, then requests go through any of its identifiers; non-trivial when a document has an object '
        'with several identifiers and transitions were accepted')
def case(w, i, rng):
    knobs = rng.choice([dict(refer=.9, ctx=.5, depth=3, medias=(3, 7), links=(1, 4)), dict(refer=.9, refer_in_switch=.6, switch=.4, medias=(3, 7)),
                        dict(refer=.8, area=.8, props=.8, links=(2, 5)), dict(refer=.8, settings=.9, ctx_props=.5), dict(refer=.3, settings=1, refset=1, depth=3, ctx=.5, links=(1, 4), area=.6, switch=.3, refer_in_switch=.5)])
    def each(L, O):
        m = L.m
        al = [o for o in m.objs if o.aliases and o.kind in ('Media', 'MediaSettings')]
        if al and O.r.random() < .45:
            o = O.r.choice(al)
            name = O.r.choice([o.id] + [a for a, _ in o.aliases])
            T = O.r.choice('PPPA')
            evs = [e for e in o.events if e.T == T and e.id != 'service.currentFocus'] or [o.lam]
            e = O.r.choice(evs)
            v = O.r.choice(NUMV.get(e.id, CUSTV)) if e.T == 'A' else ''
            if o is m.settings and e.T == 'P': return O.next(m)
            return ['act', name, e.T, e.id, O.r.choice(TRS + ['start']), v]
        return O.next(m)
    L = lockcase(w, rng, knobs, dict(act=35, tick=50, key=8), nops=(8, 40), each=each,
             crit=lambda d: d.get('alias-links', 0))
