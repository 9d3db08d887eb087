from engine import *
ID = 'C06'
QUICK, THOROUGH = 4000, 60000
RULE = ('random document with switches (nested, with defaults, rules over settings variables, switch ports, links on the switch and its ports) while '
        'the variables are reassigned and the switch and its components get random requests; non-trivial when a selection or a failed selection happened')
def case(w, i, rng):
    knobs = rng.choice([dict(switch=.7, ctx=.2, depth=2, swport=.9, settings=.9), dict(switch=.6, ctx=.3, depth=3, swport=.7, settings=.9, ruledepth=3),
                        dict(switch=.7, depth=2, area=.7, swport=.9, links=(2, 6)), dict(switch=.8, depth=1, medias=(3, 7), settings=.9, rulelit=.3),
                        dict(switch=.6, depth=2, refer=.5, refer_in_switch=.5, settings=.8, refset=.4)])
    def each(L, O):
        r = O.r.random()
        m = L.m
        if r < .3:
            sw = [o for o in m.objs if o.kind == 'Switch']
            if sw:
                o = O.r.choice(sw)
                e = O.r.choice([e for e in o.events if e.T == 'P'])
                return ['act', o.id, 'P', e.id, O.r.choice(TRS + ['start'] * 4), '']
        elif r < .42:
            es = [e for e in m.settings.events if e.T == 'A' and e.id != 'service.currentFocus']
            if es: return ['act', '__settings__', 'A', O.r.choice(es).id, 'start', O.r.choice(CUSTV)]
        return O.next(m)
    lockcase(w, rng, knobs, dict(act=35, tick=50, key=2), nops=(8, 45), each=each,
             crit=lambda d: d.get('selected', 0) or d.get('nothing-selected', 0))
