from engine import *
ID = 'C05'
QUICK, THOROUGH = 4000, 60000
RULE = ('random nesting of contexts and switches up to depth 4 under random histories that favour requests on compositions and on deep children; '
        'non-trivial when a composition of at least two levels was exercised and a context ended by itself or was restarted')
def case(w, i, rng):
    knobs = rng.choice([dict(depth=4, ctx=.6, medias=(3, 9), links=(0, 3)), dict(depth=3, ctx=.5, switch=.4, medias=(3, 8), links=(1, 4)),
                        dict(depth=4, ctx=.6, medias=(3, 9), links=(0, 0), nested_links=0), dict(depth=3, ctx=.5, refer=.5, medias=(3, 8)),
                        dict(depth=3, ctx=.5, empty=.3, medias=(2, 6), links=(1, 3), expdur=.8)])
    comp = rng.random() < .6
    def each(L, O):
        r = O.r.random()
        if comp and r < .35:
            cs = [o for o in L.m.objs if o.kind in ('Context', 'Switch') and (o is not L.m.root or O.r.random() < .15)]
            if cs:
                o = O.r.choice(cs)
                ks = [o]
                if O.r.random() < .4: ks = o.children or [o]
                return ['act', O.r.choice(ks).id, 'P', '@lambda', O.r.choice(TRS + ['start']), '']
        return O.next(L.m)
    lockcase(w, rng, knobs, dict(act=40, tick=55, key=2), nops=(10, 50), each=each, roots=.03,
             crit=lambda d: d.get('eos-context', 0) or d.get('ended', 0))
