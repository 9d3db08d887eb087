from engine import *
ID = 'C08'
QUICK, THOROUGH = 4000, 60000
RULE = ('random focus graph (focus indexes, move properties, selection links with and without keys) under random key presses and releases, focus '
        'assignments and starts/stops; non-trivial when a selection or a focus change happened')
def case(w, i, rng):
    knobs = rng.choice([dict(focus=.9, sel=.8, settings=.9, links=(2, 6), medias=(3, 7)), dict(focus=.95, sel=.5, settings=.5, desc=.6, medias=(3, 8)),
                        dict(focus=.8, sel=.9, refer=.4, ctx=.4), dict(focus=.9, sel=.7, settings=1, refset=.5, switch=.4)] * 4 +
                       [dict(focus=.9, sel=.9, settings=.7, links=(6, 12), crowd=1)])
    def each(L, O):
        m = L.m
        r = O.r.random()
        if r < .08: return ['act', '__settings__', 'A', 'service.currentFocus', 'start', O.r.choice(FOCV + ['1', '2'])]
        if r < .2:
            ms = [o for o in m.medias if o is not m.settings and o.sleeping()]
            if ms: return ['act', O.r.choice(ms).id, 'P', '@lambda', 'start', '']
        return O.next(m)
    keys = rng.choice([KEYS, ['ENTER', 'CURSOR_UP', 'CURSOR_DOWN', 'CURSOR_LEFT', 'CURSOR_RIGHT'], ['ENTER', 'RED', 'CURSOR_DOWN', 'CURSOR_RIGHT']])
    lockcase(w, rng, knobs, dict(act=18, tick=25, key=60), nops=(10, 50), each=each, keys=keys, roots=.02,
             crit=lambda d: d.get('selections', 0) or d.get('focus-updates', 0) or d.get('focus-moves', 0))
