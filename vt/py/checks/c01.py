from engine import *
ID = 'C01'
QUICK, THOROUGH = 4000, 60000
RULE = ('random document and random history dominated by explicit start/pause/resume/stop/abort requests on presentation, attribution and '
        'selection events of every object kind; non-trivial when transitions were accepted and at least one request was refused')
def case(w, i, rng):
    k = rng.random()
    knobs = dict(area=.6, sel=.4, links=(0, 3), switch=.3)
    if k < .3: knobs = dict(knobs, links=(0, 0), nested_links=0)
    L = lockcase(w, rng, knobs, dict(act=80, tick=16, key=4), nops=(10, 60), roots=.12, types='PPPPPAAS',
                 crit=lambda d: d.get('transitions', 0) and d.get('refused', 0))
