from engine import *
ID = 'C04'
QUICK, THOROUGH = 4000, 60000
RULE = ('random document rich in anchors, explicit durations and delayed actions under fine, coarse, exact and irregular ticks mixed with '
        'pause/resume/stop/start; non-trivial when at least two pending actions came due')
FINE = [1, SEC // 100, SEC // 25, SEC // 10, SEC // 8]
EXACT = [SEC // 4, SEC // 2, SEC]
def case(w, i, rng):
    knobs = rng.choice([dict(area=.9, links=(1, 3), expdur=.5), dict(delay=.7, links=(2, 6), area=.4), dict(dur=.7, delay=.4, links=(2, 5)),
                        dict(area=.9, links=(2, 5), expdur=.7, props=.8), dict(area=.8, ctx=.45, depth=3, links=(1, 4))])
    ticks = rng.choice([FINE, EXACT, TICKS, [rng.randrange(1, 2 * SEC) for _ in range(6)], [0, 1, SEC - 1, SEC, SEC + 1, SEC // 2 - 1]])
    lockcase(w, rng, knobs, dict(act=18, tick=75, key=4), nops=(10, 60), ticks=ticks, crit=lambda d: d.get('due', 0) > 1,
             trs=rng.choice([TRS, ['pause', 'resume', 'start'], ['start', 'start', 'stop', 'pause', 'resume']]))
