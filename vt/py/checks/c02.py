from engine import *
ID = 'C02'
QUICK, THOROUGH = 4000, 60000
RULE = ('random document with up to 9 links per context (simple and compound conditions and actions, assessments, parameters, delays, ports, nested '
        'contexts, references) and a random history of requests, ticks and keys; non-trivial when at least two links fired')
def case(w, i, rng):
    knobs = rng.choice([dict(links=(3, 9), compound=.5, param=.5), dict(links=(2, 6), delay=.5, compound=.4),
                        dict(links=(2, 8), refer=.5, depth=3, ctx=.45), dict(links=(2, 8), multi=.6, selfbind=.3, assess=.6),
                        dict(links=(2, 5), area=.7, startbias=.8), dict(links=(2, 7), switch=.5, depth=3)])
    lockcase(w, rng, knobs, dict(act=30, tick=55, key=12), crit=lambda d: d.get('links-fired', 0) > 1)
