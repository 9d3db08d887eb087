from engine import *
ID = 'C07'
QUICK, THOROUGH = 4000, 60000
RULE = ('random document with properties on media, contexts and settings, set actions with literal and referring values and durations, and direct '
        'assignments at any time; every property of every object is read back after every request; non-trivial when three or more assignments took effect')
def case(w, i, rng):
    knobs = rng.choice([dict(props=.95, links=(1, 5), real_props=.5, ctx_props=.8, settings=.7), dict(props=.9, dur=.6, links=(2, 6), ctx_props=.5, settings=.6),
                        dict(props=.9, real_props=.9, regions=.8, desc=.6), dict(props=.9, ghosts=.7, settings=.8, refset=.5, param=.7), dict(props=.9, refer=.5, ctx_props=.6)])
    L = lockcase(w, rng, knobs, dict(act=55, tick=40, key=3), nops=(10, 45), types='AAAAP', trs=['start', 'start', 'stop', 'pause', 'resume', 'abort'],
             crit=lambda d: d.get('transitions', 0) > 6)
