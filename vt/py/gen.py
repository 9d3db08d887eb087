"""Random documents (spec.Doc) for the lockstep and structure monitors."""
import random
from spec import *

CUSTOM = ['x', 'y', 'st']            # free-valued properties
LONG = ['v' * 90 + 'a', 'v' * 90 + 'b', '\u00e9' * 150 + ' z']   # values that differ only far from their beginning
CUSTV = ['a', 'b', 'B', '', '1', '2', '10', ' a', 'ab', '\u00e9'] * 2 + LONG[:2]
TM = ['tm']                          # time-valued
TMV = ['1s', '0.5s', '', '2s', '0s', '00:00:01']
FOC = ['focusIndex', 'moveUp', 'moveDown', 'moveLeft', 'moveRight']
FOCV = ['1', '2', '3', '10', 'k', '']
LEN = ['left', 'top', 'width', 'height']
LENV = ['0', '10', '50%', '100%', '25%', '33', '7.5%', '']
NUMV = {'transparency': ['0', '50%', '128', '0.25', '100%', ''], 'zIndex': ['0', '1', '-1', '2', '7', ''],
        'zOrder': ['0', '1', '2', ''], 'visible': ['true', 'false', ''], 'background': ['red', 'blue', '#00ff00', ''],
        'explicitDur': ['1s', '2s', '0.5s', '3', 'indefinite', '', '1.25s'], 'duration': ['2s', '1.5s', 'indefinite', ''],
        'bounds': ['1,2,30,40', '10%,10%,50%,50%', '0,0,100%,100%'], 'location': ['5,6', '25%,50%'], 'size': ['40,30', '50%,25%'],
        'fontColor': ['white'], 'focusBorderColor': ['red'], 'focusBorderWidth': ['1'], 'selBorderColor': ['red'], 'focusBorderTransparency': ['50%'], 'freeze': ['true', 'false'], 'right': ['5', '10%', ''], 'bottom': ['7', '20%', '']}
for n in CUSTOM: NUMV[n] = CUSTV
for n in TM: NUMV[n] = TMV
for n in FOC: NUMV[n] = FOCV
for n in LEN: NUMV[n] = LENV
ANIM = LEN + ['transparency', 'bounds', 'location', 'size', 'background', 'zIndex', 'visible'] + CUSTOM
KEYS = ['RED', 'GREEN', 'ENTER', 'OK', '1', 'CURSOR_UP', 'CURSOR_DOWN', 'CURSOR_LEFT', 'CURSOR_RIGHT']
TIMES = [0, SEC // 4, SEC // 2, SEC, 3 * SEC // 2, 2 * SEC, 3 * SEC]

def tstr(rng, ns):
    if rng.random() < .1:
        s = ns / SEC
        return '%02d:%02d:%s' % (s // 3600, s % 3600 // 60, ('%.9f' % (ns % (60 * SEC) / SEC)).rstrip('0').rstrip('.'))
    if rng.random() < .15: return '%g' % (ns / SEC)
    return times(ns)

class Cfg:
    """knobs; every probability and size is a default that a monitor may override"""
    medias = (2, 6); depth = 2; ctx = .3; switch = .25; refer = .2; settings = .35; refset = 0
    area = .45; label = .12; props = .5; desc = .25; links = (1, 6); nested_links = .6
    compound = .35; assess = .35; param = .4; delay = .25; dur = .2; sel = .25; focus = .25; custom_role = .2
    real_props = .35; portprop = .1; odd_ids = .25; expdur = .3; content = .25; selfbind = .15; multi = .25; shuffle = .4
    ghosts = .3; refer_in_switch = 0; ctx_props = .3; swport = .6; ruledepth = 2; startbias = .5; reuse = .3; lua = 0
    scale = .08; crowd = 0; trans = 0; extra = 0; lookat = 0; rulelit = .1; props_pool = None; regions = .5; srcs = None; empty = .05; nopark = 0

class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.c = Cfg()
        for k, v in kw.items():
            assert hasattr(Cfg, k), k
            setattr(self.c, k, v)
        c = self.c
        # now and then something is large: numbers of things, depth, times, names and values
        self.big = set()
        if self.p(c.scale):
            self.big = set(rng.sample(['links', 'medias', 'depth', 'names', 'times', 'ifaces', 'ports', 'rules', 'binds', 'acts'], rng.choice([1, 1, 2])))
            if 'links' in self.big: c.links = (10, 30)
            if 'depth' in self.big: c.depth, c.ctx = 7, .75; c.medias = (c.medias[0], max(c.medias[1], 8))
        if self.p(c.crowd): self.big.add('medias')
        if 'medias' in self.big: c.medias = (12, 30)
        self.n = 0
        self.used = set()
    def p(self, x): return self.r.random() < x
    def ch(self, l): return self.r.choice(l)
    def id(self, pre):
        self.n += 1
        s = '%s%d' % (pre, self.n)
        if self.p(self.c.odd_ids):
            s = self.ch(['%s.%d', '%s-%d', '_%s%d', '%s%d_', '%s:%d', '%s.a.%d', 'Z%s%d', '%s%d.x']) % (pre, self.n)
        if 'names' in self.big and self.p(.5): s += self.ch(['_', 'x', '.y', '-0']) * self.r.randint(20, 90)
        assert s not in self.used
        self.used.add(s)
        return s
    # -- document --
    def doc(self):
        d = self.d = Doc()
        c = self.c
        d.id = self.id('doc'); d.body.id = self.id('body')
        self.setprops = []                       # settings properties
        self.budget = self.r.randint(*c.medias)
        self.mediae = []; self.sets = []
        self.parents = {}
        self.fill(d.body, 0)
        if self.p(c.settings):
            for _ in range(self.r.randint(1, 2)):
                m = Media(self.id('set')); m.type = self.ch(SETTINGS_TYPES)
                where = self.ch([d.body] + [x for x in self.contexts(d.body)])
                where.add(m); self.sets.append(m)
                self.add_props(m, CUSTOM + ['service.currentFocus', 'z.w'] if self.p(.5) else CUSTOM)
        self.refers()
        self.features()
        self.mkrules()
        self.mkdescs()
        for cx in [d.body] + self.contexts(d.body): self.mkports(cx)
        for s in self.switches(d.body): self.mkswitch(s)
        self.exp = None
        for cx in [d.body] + self.contexts(d.body): self.mklinks(cx)
        if self.p(c.shuffle):
            def sh(l):
                out = [x for g in l for x in g]
                self.r.shuffle(out)
                # links keep their relative order only within a document: order is part of the behaviour
                return out
            for cx in [d.body] + self.contexts(d.body):
                if self.p(.5): cx.shuffle = self.frozen_shuffle()
        return d
    def frozen_shuffle(self):
        seed = self.r.random()
        def sh(groups):
            # interleaves the groups and keeps the order inside each
            r = random.Random(seed)
            g = [list(x) for x in groups]
            out = []
            while any(g):
                k = r.choice([x for x in g if x])
                out.append(k.pop(0))
            return out
        return sh
    def contexts(self, c):
        out = []
        for x in c.children:
            if x.kind == 'Context': out.append(x)
            if x.kind != 'Media': out += self.contexts(x)
        return out
    def switches(self, c):
        out = []
        for x in c.children:
            if x.kind == 'Switch': out.append(x)
            if x.kind != 'Media': out += self.switches(x)
        return out
    def fill(self, c, depth):
        n = self.r.randint(1, 4 if 'medias' not in self.big else 12) if depth else max(2, self.r.randint(1, self.budget))
        if c.kind == 'Context' and depth and self.p(self.c.empty): return
        for _ in range(n):
            k = self.r.random()
            if depth < self.c.depth and k < self.c.ctx:
                x = c.add(Context(self.id('c'))); self.fill(x, depth + 1)
            elif depth < self.c.depth and k < self.c.ctx + self.c.switch:
                x = c.add(Switch(self.id('sw'))); self.fill(x, depth + 1)
            else:
                m = Media(self.id('m'))
                c.add(m); self.mediae.append(m)
                self.content(m)
                self.budget -= 1
            if self.budget <= 0: break
        if not c.children:
            m = c.add(Media(self.id('m'))); self.mediae.append(m)
    def content(self, m):
        if not self.p(self.c.content): return
        k = self.r.random()
        if self.c.srcs: m.src = self.ch(self.c.srcs)
        elif k < .4: m.src = 't.txt'
        elif k < .8: m.src = 'i.png'
        else: m.type = self.ch(['application/x-ginga-timer', 'application/x-foo', ''])
        if self.p(self.c.lua): m.src, m.type = 's.lua', None
    def add_props(self, o, pool):
        names = list(pool); self.r.shuffle(names)
        for n in names[:self.r.randint(1, 3) if 'ifaces' not in self.big else 30] + (['x%d' % k for k in range(self.r.randint(5, 25))] if 'ifaces' in self.big and 'tm' in pool else []):
            if any(a == n for a, _ in o.props): continue
            if n == 'service.currentFocus': v = self.ch(FOCV)
            else: v = self.ch(NUMV.get(n, CUSTV))
            o.props.append((n, v if v or self.p(.5) else None))
    def refers(self):
        todo = []
        for m in self.mediae:
            if not self.p(self.c.refer): continue
            todo.append(m)
            while len(todo) < 12 and self.p(.35): todo.append(m)
        if self.p(self.c.refset):
            for m in self.sets:
                todo += [m] * self.r.randint(0, 3)
                if self.p(.5): self.areas(m)
        if self.p(.5): self.r.shuffle(todo)
        for m in todo:
            cands = [x for x in [self.d.body] + self.contexts(self.d.body)]
            if self.c.refer_in_switch: cands += self.switches(self.d.body)
            c = self.ch(cands)
            a = Media(self.id('r')); a.refer = m.id
            a.instance = self.ch([None, None, 'instSame', 'gradSame', 'new']) if self.p(.3) else None
            if self.p(.5): c.add(a)
            else:
                a.parent = c; c.children.insert(0, a)
            self.mediae.append(a) if False else None
            self.alias = getattr(self, 'alias', []); self.alias.append(a)
            if self.p(.5): self.areas(a)
            if self.p(.4): self.add_props(a, self.setpool(m) if m in self.sets else self.pool())
    def setpool(self, m):
        # which of several declarations of a variable, one of them through a reference to another settings media, counts is left open
        used = [n for x in self.d.medias() if self.is_set(x) and x is not m and x.refer != m.id for n, _ in x.props]
        return [n for n in CUSTOM + ['z.w'] if n not in used] or ['z.v']
    def pool(self):
        if self.c.props_pool: return self.c.props_pool
        p = CUSTOM + TM
        if self.p(self.c.real_props): p = p + LEN + ['transparency', 'zIndex', 'visible', 'background', 'bounds', 'location', 'size', 'right', 'bottom']
        if self.p(self.c.focus): p = p + FOC * 2
        return sorted(set(p))
    def areas(self, m):
        for _ in range(self.r.randint(1, 2) if 'ifaces' not in self.big else self.r.randint(3, 14)):
            if self.p(self.c.label): m.areas.append((self.id('a'), None, None, self.ch(['L', 'intro', 'x y', 'a label of %d letters ' % self.r.choice([40, 70]) + 'l' * self.r.choice([20, 50, 300])])))
            else:
                b, e = sorted([self.time(), self.time()])
                m.areas.append((self.id('a'), tstr(self.r, b) if self.p(.8) else None, tstr(self.r, e) if self.p(.75) else None, None))
    def time(self): return self.ch(TIMES if 'times' not in self.big or self.p(.4) else [4 * SEC, 5 * SEC, 61 * SEC, 100 * SEC, 600 * SEC, 3600 * SEC, 3661 * SEC, 90000 * SEC])
    def features(self):
        for m in self.mediae:
            if self.p(self.c.area): self.areas(m)
            if self.p(self.c.props): self.add_props(m, self.pool())
            if self.p(self.c.expdur):
                n = self.ch(['explicitDur', 'duration'])
                m.props.append((n, self.ch(NUMV[n][:3] if 'times' not in self.big else ['5s', '00:01:40', '3600s', '7200.5'])))
        for c in [self.d.body] + self.contexts(self.d.body):
            if self.p(self.c.ctx_props): self.add_props(c, CUSTOM)
    def mkrules(self):
        self.rules = []
        if not self.switches(self.d.body): return
        var = CUSTOM + ['service.currentFocus']
        def rule(depth):
            if depth > 0 and self.p(.35):
                op = self.ch(['and', 'or', 'and', 'or', 'not'])
                r = CRule(self.id('ru'), op, [rule(depth - 1) for _ in range(1 if op == 'not' else self.r.randint(0 if self.p(.1) else 1, 3 if 'rules' not in self.big or depth > 1 else 9))])
            else: r = Rule(self.id('ru'), self.ch(var), self.r.randint(0, 5), self.ch(CUSTV + FOCV))
            self.rules.append(r)
            return r
        for _ in range(self.r.randint(1, 4) if 'rules' not in self.big else self.r.randint(6, 20)): self.d.rules.append(rule(self.c.ruledepth))
    def mkdescs(self):
        if not self.p(self.c.desc): return
        d = self.d
        def region(depth):
            at = []
            if self.p(.7): at.append(self.ch([('left', self.ch(['10', '25%', '5%'])), ('right', self.ch(['10', '25%']))]))
            if self.p(.7): at.append(self.ch([('top', self.ch(['10', '25%', '5%'])), ('bottom', self.ch(['10', '25%']))]))
            if self.p(.8): at.append(('width', self.ch(['50%', '40', '30%'])))
            if self.p(.8): at.append(('height', self.ch(['50%', '40', '30%'])))
            if self.p(.4): at.append(('zIndex', self.ch(['1', '2', '5'])))
            self.r.shuffle(at)
            return Region(self.id('re'), at, [region(depth - 1) for _ in range(self.r.randint(0, 2))] if depth else [])
        if self.p(self.c.regions):
            for _ in range(self.r.randint(1, 2)): d.regions.append(region(2))
        if self.p(self.c.trans):
            for _ in range(self.r.randint(1, 3)):
                at = [('id', self.id('tr')), ('type', self.ch(['fade', 'barWipe', 'irisWipe', 'clockWipe', 'snakeWipe']))]
                opt = [('subtype', self.ch(['crossfade', 'leftToRight', 'rectangle'])), ('dur', self.ch(['1s', '2s', '0.5s'])), ('startProgress', '0.5'), ('endProgress', '1'),
                       ('direction', self.ch(['forward', 'reverse'])), ('fadeColor', 'red'), ('horzRepeat', '2'), ('vertRepeat', '3'), ('borderWidth', '1'), ('borderColor', 'blue')]
                d.trans.append(at + self.r.sample(opt, self.r.randint(0, len(opt))))
        for _ in range(self.r.randint(1, 3)):
            at = [('id', self.id('de'))]
            if d.trans:
                for n in ('transIn', 'transOut'):
                    if self.p(.5): at.append((n, dict(self.ch(d.trans))['id']))
            if self.p(self.c.extra): at += self.r.sample([('left', '10%'), ('top', '5'), ('width', '40%'), ('height', '33%'), ('right', '1'), ('bottom', '2%'), ('zIndex', '3'),
                ('freeze', 'true'), ('player', 'p'), ('focusBorderColor', 'red'), ('focusBorderWidth', '2'), ('focusBorderTransparency', '50%'), ('focusSrc', 'a'), ('focusSelSrc', 'b'), ('selBorderColor', 'white')], self.r.randint(0, 5))
            if d.regions and self.p(.7): at.append(('region', self.ch(all_regions(d)).id))
            if self.p(.3): at.append(('explicitDur', self.ch(['1s', '2s'])))
            if self.p(.3): at += [(n, self.ch(['1', '2', '3'])) for n in self.r.sample(FOC, 2)]
            if self.p(.4): at.append(('@params', [(n, self.ch(NUMV[n])) for n in self.r.sample(CUSTOM + ['transparency', 'visible'], self.r.randint(1, 2))]))
            d.descs.append(at)
        for m in d.medias():
            if not m.refer and m.type not in SETTINGS_TYPES and self.p(.5): m.desc = dict(self.ch(d.descs))['id']
    # -- interfaces: what a name denotes --
    def is_set(self, m):
        if m.refer: return any(x.id == m.refer for x in self.sets)
        return m.type in SETTINGS_TYPES
    def holder(self, m):
        """the declarations of the object a media id denotes"""
        if self.is_set(m): return [x for x in self.d.medias() if self.is_set(x)]
        if m.refer: return [x for x in self.d.medias() if x.id == m.refer] + [x for x in self.d.medias() if x.refer == m.refer]
        return [m] + [x for x in self.d.medias() if x.refer == m.id]
    def ifaces(self, scope, T):
        """[(component, interface)] usable in scope for an event of type T"""
        out = []
        for x in scope.children:
            if T == 'P': out += [(x.id, None)] * (2 if x.kind == 'Media' else 3)
            if x.kind == 'Media':
                sett = self.is_set(x)
                for h in self.holder(x):
                    if T == 'P': out += [(x.id, a[0]) for a in h.areas]
                    if T == 'A': out += [(x.id, n) for n, _ in h.props]
                if T == 'A' and sett: out.append((x.id, 'service.currentFocus'))
                if T in 'SL' and not sett: out.append((x.id, None))
            elif x.kind == 'Context':
                if T == 'A': out += [(x.id, n) for n, _ in x.props]
                out += [(x.id, p) for p, cc, i in x.ports if self.ptype.get(p) == T]
            elif x.kind == 'Switch':
                if T == 'P': out += [(x.id, p) for p, m in x.ports]
        return out
    def mkports(self, c):
        self.ptype = getattr(self, 'ptype', {})
        # ports of inner contexts must exist first
        for x in c.children:
            if x.kind != 'Media': self.pre(x)
        self.pre(c)
    def pre(self, c):
        if getattr(c, 'done', 0): return
        for x in c.children:
            if x.kind != 'Media': self.pre(x)
        c.done = 1
        if c.kind == 'Switch':
            self.mkswports(c); return
        P = self.ifaces(c, 'P')
        for _ in range(self.r.randint(4, 16) if 'ports' in self.big else self.r.randint(10, 40) if 'medias' in self.big else self.r.randint(1, 3)):
            if self.p(self.c.portprop) and self.ifaces(c, 'A'):
                a = self.ch(self.ifaces(c, 'A')); t = 'A'
            elif P: a = self.ch(P); t = 'P'
            else: continue
            pid = self.id('p')
            c.ports.append((pid, a[0], a[1])); self.ptype[pid] = t
        if c is self.d.body and P and not any(self.ptype[p] == 'P' for p, _, _ in c.ports):
            a = self.ch(P); pid = self.id('p'); c.ports.append((pid, a[0], a[1])); self.ptype[pid] = 'P'
    def mkswports(self, s):
        if not self.p(self.c.swport): return
        for _ in range(self.r.randint(1, 2) if 'ports' not in self.big else self.r.randint(3, 9)):
            m = []
            for x in s.children:
                if self.p(.75):
                    i = [b for a, b in self.ifaces(s, 'P') if a == x.id]
                    if i: m.append((x.id, self.ch(i)))
            if m:
                self.r.shuffle(m)
                s.ports.append((self.id('sp'), m))
    def mkswitch(self, s):
        comps = [x.id for x in s.children if not (x.kind == 'Media' and self.is_set(x))]
        self.r.shuffle(comps)
        left = list(comps)
        for cid in comps:
            if self.rules and self.p(.75): s.rules.append((self.ch(self.rules).id, cid))
        if self.rules and comps and self.p(.2): s.rules.append((self.ch(self.rules).id, self.ch(comps)))
        if comps and self.p(.6): s.rules.insert(self.r.randint(0, len(s.rules)), (None, self.ch(comps)))
    # -- links --
    def mkcond(self, scope, names, T=None):
        av = {t: self.ifaces(scope, t) for t in 'PAS'}
        ts = [t for t in 'PPPAS' if av[t] or t == 'P']
        if not self.p(self.c.sel): ts = [t for t in ts if t != 'S'] or ts
        t = T or self.ch(ts)
        if T is None and self.c.lookat and self.p(self.c.lookat) and self.ifaces(scope, 'L'):
            pool = [x for x in ['onLookAt', 'onLookAway'] if x not in names]
            if pool: return Cond(self.ch(pool), None, None)
        if self.p(self.c.custom_role):
            r = self.id('role')
            if t == 'S': return Cond(r, (t, self.ch(['start', 'stop'])), self.ch([None, None, 'RED', '$k', 'ENTER']))
            tr = self.ch(['start', 'stop', 'abort', 'pause', 'resume']) if t == 'P' else self.ch(['start', 'stop'])
            return Cond(r, (t, tr))
        pool = {'P': ['onBegin', 'onBegin', 'onEnd', 'onEnd', 'onAbort', 'onPause', 'onResume'],
                'A': ['onBeginAttribution', 'onEndAttribution'], 'S': ['onSelection', 'onBeginSelection', 'onEndSelection']}[t]
        pool = [x for x in pool if x not in names]
        if not pool: return None
        return Cond(self.ch(pool), None, self.ch([None, 'RED', 'GREEN', '$k', 'ENTER', '1']) if t == 'S' else None)
    def mkact(self, scope, names):
        A = self.ifaces(scope, 'A')
        t = 'A' if A and self.p(.35) else 'P'
        dl = None
        if self.p(self.c.delay): dl = self.ch(['0s', '1s', '0.5s', '2s', '$d'] + ['5s', '61s', '3600s'] * ('times' in self.big))
        if t == 'A':
            v = self.ch(['$v', '$v', 'a', '1', '$nosuch'])
            du = self.ch(['1s', '0.5s', '$u', '2s'] + ['5s', '61s', '3600s'] * ('times' in self.big)) if self.p(self.c.dur) else None
            if 'set' not in names and not self.p(self.c.custom_role): return Action('set', None, v, du, dl)
            return Action(self.id('role'), ('A', self.ch(['start', 'start', 'start', 'stop', 'abort'])), v, du, dl)
        pool = [x for x in ['start', 'start', 'start', 'stop', 'stop', 'pause', 'resume', 'abort'] if x not in names]
        if pool and not self.p(self.c.custom_role): return Action(self.ch(pool), None, None, None, dl)
        return Action(self.id('role'), ('P', self.ch(['start', 'stop', 'pause', 'resume', 'abort'])), None, None, dl)
    def mkconn(self, scope):
        names = set()
        asses = []
        def atom():
            rn = self.id('test') if not asses or self.p(.6) else self.ch(asses)
            if rn not in asses: asses.append(rn)
            l = ('role', rn)
            r = ('value', self.ch(CUSTV + ['$tv'])) if self.p(.7) or len(asses) < 2 else ('role', self.ch(asses))
            if self.p(.2): l, r = r, l
            return Atom(l, self.r.randint(0, 5), r)
        def stmt(d):
            if d and self.p(.5):
                if self.p(.2): return Stmt('not', [stmt(d - 1)], self.p(.3))
                n = self.r.randint(2, 3 if 'binds' not in self.big else 8)
                return Stmt(self.ch(['and', 'or']), [stmt(d - 1) for _ in range(n)], self.p(.3))
            return atom()
        def cond(d):
            if d and self.p(self.c.compound):
                items = []
                for _ in range(self.r.randint(1, 3) if 'binds' not in self.big else self.r.randint(3, 9)):
                    x = cond(d - 1)
                    if x is not None: items.append(x)
                if not items: return None
                if self.p(self.c.assess): items.insert(self.r.randint(0, len(items)), stmt(2))
                return CCond(self.ch(['or', 'or', 'and']), items)
            x = mk()
            return x
        def mk():
            x = self.mkcond(scope, names)
            if x is not None:
                names.add(x.role)
                if self.p(self.c.assess * .5): return CCond('and', [x, stmt(2)])
            return x
        c = cond(2)
        if c is None: return None
        def act(d):
            if d and self.p(.5):
                return CAct(self.ch(['par', 'seq']), [act(d - 1) for _ in range(self.r.randint(1, 3) if 'acts' not in self.big else self.r.randint(3, 7))])
            a = self.mkact(scope, names)
            names.add(a.role)
            return a
        a = act(2)
        k = Connector(self.id('k'), c, a, ['v', 'd', 'u', 'k', 'tv'] if self.p(.7) else [])
        if not self.p(.5): k.params = [x for x in ['v', 'd', 'u', 'k', 'tv']]
        self.d.conns.append(k)
        return k
    def pick(self, scope, T):
        """a bind target in scope for events of type T"""
        l = self.ifaces(scope, T)
        if T == 'A' and scope.props and self.p(.3): return (scope.id, self.ch(scope.props)[0])
        if T == 'P' and self.p(self.c.selfbind) and scope.kind == 'Context': return (scope.id, None)
        return self.ch(l) if l else None
    def value_for(self, name):
        return self.ch(NUMV.get(name, CUSTV))
    def mklinks(self, scope):
        if scope is not self.d.body and not self.p(self.c.nested_links): return
        for _ in range(self.r.randint(*self.c.links)):
            k = None
            if self.d.conns and self.p(self.c.reuse): k = self.ch(self.d.conns)
            l = self.mklink(scope, k or self.mkconn(scope))
            if l is not None: scope.links.append(l)
        self.prune()
    def prune(self):
        pass
    def many(self): return 1 if not self.p(self.c.multi) else 2 if 'binds' not in self.big else self.r.randint(2, 9)
    def mklink(self, scope, k):
        if k is None: return None
        binds = []
        lp = {}
        for c, _ in k.conds():
            T = c.type()[0]
            for _ in range(self.many()):
                t = self.pick(scope, T)
                if t is None: return None
                pr = []
                if c.key == '$k':
                    (pr.append(('k', self.ch(KEYS[:5]))) if self.p(.5) else lp.setdefault('k', self.ch(KEYS[:5])))
                binds.append(Bind(c.role, t[0], t[1], pr))
        ghosts = []
        for a in k.acts():
            T = a.type()[0]
            for _ in range(self.many()):
                t = self.pick(scope, T)
                if t is None: return None
                pr = []
                for f, attr in (('d', a.delay), ('u', a.dur)):
                    if attr == '$' + f:
                        v = self.ch(TMV + ['1s', '2s'])
                        if self.p(self.c.ghosts):
                            g = self.propref(scope, TM)
                            if g: v = g
                        (pr.append((f, v)) if self.p(.6) else lp.setdefault(f, v))
                if T == 'A':
                    name = t[1]
                    name = self.portname(scope, t)
                    strict = name not in CUSTOM + FOC + TM + ['service.currentFocus', 'z.w']
                    if a.type()[1] == 'start':
                        if a.value == '$v':
                            v = self.value_for(name)
                            if not strict and self.p(self.c.ghosts):
                                pool = TM if name in TM else CUSTOM + FOC
                                if self.p(.5):
                                    g = self.propref(scope, pool)
                                    if g: v = g
                                else:
                                    g = self.ghost(scope, pool, k, ghosts)
                                    if g: v = g
                            pr.append(('v', v))
                        elif strict or name in TM: return None       # a literal that may be invalid there
                        if a.dur and strict and name not in ANIM: return None
                        if name in ('explicitDur', 'duration') and a.dur: return None
                binds.append(Bind(a.role, t[0], t[1], pr))
        for rn in k.tests():
            t = self.pick(scope, 'A')
            if t is None: return None
            pr = [('tv', self.ch(CUSTV))] if self.p(.5) else []
            binds.append(Bind(rn, t[0], t[1], pr))
        for g, t in ghosts: binds.append(Bind(g, t[0], t[1]))
        if self.p(.5): self.r.shuffle(binds)
        return Link(k, binds, sorted(lp.items()), self.id('l') if self.p(.4) else None)
    def portname(self, scope, t):
        """property name a bind target denotes"""
        x = [y for y in scope.children if y.id == t[0]]
        if x and x[0].kind == 'Context':
            for p, cc, i in x[0].ports:
                if p == t[1]: return self.portname(x[0], (cc, i))
        return t[1]
    def allprops(self, pool):
        out = []
        for m in self.d.medias():
            out += [(m.id, n) for n, _ in m.props if n in pool]
        for c in [self.d.body] + self.contexts(self.d.body): out += [(c.id, n) for n, _ in c.props if n in pool]
        return out
    def propref(self, scope, pool):
        l = self.allprops(pool)
        if not l: return None
        o, n = self.ch(l)
        return '$%s.%s' % (o, n)
    def ghost(self, scope, pool, k, ghosts):
        l = [t for t in self.ifaces(scope, 'A') if self.portname(scope, t) in pool]
        if not l: return None
        g = self.id('get')
        ghosts.append((g, self.ch(l)))
        return '$' + g
