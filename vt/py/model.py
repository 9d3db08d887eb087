"""Reference interpreter of the presentation engine.

It is given the structure of a loaded document (the driver's `dump`) and then
fed the same requests as the real engine; it says which transitions, player
actions and property values must be observed.  All iteration orders that the
engine leaves open (sets of objects and events) are taken from the dump.
"""
import re
SEC = 10 ** 9
S, O, P_ = 'z', 'o', 'p'

class Diverges(Exception):
    """the document loops for ever within one request"""

class Diagnosed(Exception):
    """the document asks for an invalid value: the engine ends with a message"""

# -- values -----------------------------------------------------------------
NUM = r'[+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)'

def parse_time(s):
    """Time in ns of a plain time string (only formats the generators emit)."""
    s = s.strip()
    if s == '': return 0
    m = re.match(r'^(%s)s?$' % NUM, s)
    if m:
        v = float(m.group(1))
        if v < 0: raise Diagnosed(s)
        return int(v * SEC)
    m = re.match(r'^(%s):(%s):(%s)$' % (NUM, NUM, NUM), s)
    if m:
        v = 3600 * float(m.group(1)) + 60 * float(m.group(2)) + float(m.group(3))
        return int(v * SEC)
    raise Diagnosed(s)

MIME = {'bmp': 'image/bmp', 'css': 'text/css', 'gif': 'image/gif', 'htm': 'text/html', 'html': 'text/html',
        'jpeg': 'image/jpeg', 'jpg': 'image/jpeg', 'lua': 'application/x-ginga-NCLua', 'png': 'image/png',
        'svg': 'image/svg+xml', 'txt': 'text/plain', 'xml': 'text/xml', 'ncl': 'application/x-ginga-ncl',
        'mp3': 'audio/mp3', 'mp4': 'video/mp4', 'mpg': 'video/mpeg', 'ogg': 'audio/ogg', 'webp': 'image/x-webp',
        'avi': 'video/x-msvideo', 'wav': 'audio/basic', 'ncl360': 'application/x-ncl360', 'smil': 'application/smil',
        'ac3': 'audio/ac3', 'avif': 'image/avif', 'bpg': 'image/x-bpg', 'class': 'application/x-ginga-NCLet',
        'heic': 'image/heic', 'heif': 'image/heic', 'mov': 'video/quicktime', 'mp2': 'audio/mp2', 'mpa': 'audio/mpa',
        'mpeg': 'video/mpeg', 'mpv': 'video/mpv', 'oga': 'audio/ogg', 'ogv': 'video/ogg', 'opus': 'audio/ogg',
        'spx': 'audio/ogg', 'srt': 'text/srt', 'ssml': 'application/ssml+xml', 'svgz': 'image/svg+xml', 'ts': 'video/mpeg',
        'wmv': 'video/x-ms-wmv', 'xlet': 'application/x-ginga-NCLet', 'xlt': 'application/x-ginga-NCLet'}

def mime_of(uri, typ):
    if typ: return typ
    if uri:
        i = uri.rfind('.')
        if i >= 0 and uri[i + 1:] in MIME: return MIME[uri[i + 1:]]
    return 'application/x-ginga-timer'

def player_class(mime):
    if mime.startswith('audio') or mime.startswith('video'): return 'PlayerVideo'
    if mime == 'application/x-ginga-siggen': return 'PlayerSigGen'
    if mime.startswith('image'): return 'PlayerImage'
    if mime == 'text/plain': return 'PlayerText'
    if mime == 'application/x-ncl360': return 'PlayerRemote'
    if mime == 'application/x-ginga-NCLua': return 'PlayerLua'
    return 'Player'

# -- structure --------------------------------------------------------------
class Ev:
    __slots__ = ('obj', 'T', 'id', 'st', 'b', 'n', 'lab', 'par', 'lam')
    def __init__(self, obj, T, id, b=0, n=None, lab='', key=None):
        self.obj, self.T, self.id, self.b, self.n, self.lab = obj, T, id, b, n, lab
        self.st = S
        self.par = {} if key is None else {'key': key}
        self.lam = T == 'P' and id == '@lambda'
    def key(self): return (self.obj.id, self.T, self.id)
    def __repr__(self): return '%s/%s/%s' % self.key()

class Act:
    __slots__ = ('ev', 'tr', 'pred', 'value', 'dur', 'delay')
    def __init__(self, ev, tr, value='', dur='', delay='', pred=None):
        self.ev, self.tr, self.value, self.dur, self.delay, self.pred = ev, tr, value, dur, delay, pred

class Pl:
    """content player"""
    def __init__(self, media):
        self.media = media
        self.props = {}
        self.st = S
        self.dur = None
        self.focus = ''
        self.cls = ''
        self.anim = {}
        self.posts = []
    def script(self, *what):
        """something the script of this player is told"""
        if self.cls == 'PlayerLua': self.media.doc.scripts.append((self.media.id,) + what)
    def set(self, name, value):
        m = self.media
        self.anim.pop(name, None)
        if self.st == O: self.script('attribution', name, value)
        n = {'explicitDur': 'duration'}.get(name, name)
        if n == 'duration':
            self.dur = None if value in ('', 'indefinite') else parse_time(value)
        elif n == 'focusIndex':
            self.focus = value
        elif n in ('bounds', 'location', 'size'):
            v = value or {'bounds': '0%,0%,100%,100%', 'location': '0,0', 'size': '100%,100%'}[n]
            parts = [x.strip() for x in v.split(',')]
            names = {'bounds': ('left', 'top', 'width', 'height'), 'location': ('left', 'top'), 'size': ('width', 'height')}[n]
            for a, b in zip(names, parts): m.setprop(a, b, 0)
        elif n == 'width':
            if m.getprop('right'): m.setprop('right', m.getprop('right'), 0)
        elif n == 'height':
            if m.getprop('bottom'): m.setprop('bottom', m.getprop('bottom'), 0)
        self.props[name] = value

class Obj:
    kind = '?'
    def __init__(self, doc, d):
        self.doc, self.id, self.kind = doc, d['id'], d['kind']
        self.time = None
        self.props = {k: v for k, v in d['props'].items() if v != ''}
        self.delayed = []
        self.events = []
        for e in d['events']:
            n = int(e['n'])
            self.events.append(Ev(self, e['t'], e['id'], int(e['b']), None if n < 0 else n, e.get('lab', ''), e.get('key')))
            if int(e['b']) < 0: self.events[-1].b = None
        self.lam = [e for e in self.events if e.lam][0]
        self.aliases = []
        self.parent = None
    def is_ctx(self): return False
    def ev(self, T, id):
        for e in self.events:
            if e.T == T and e.id == id: return e
    def getprop(self, n): return self.props.get(n, '')
    def setprop(self, n, v, dur): self.props[n] = v
    def st(self): return self.lam.st
    def occurring(self): return self.lam.st == O
    def sleeping(self): return self.lam.st == S
    def add_delayed(self, ev, tr, value, delay, dur=''):
        if delay is None or self.time is None: return
        self.delayed.append([Act(ev, tr, value, dur), self.time + delay])
    def key(self, k, press): pass
    def tick(self, diff):
        if not self.occurring(): return
        self.time += diff
        self.doc.count('ticks')
        for it in self.delayed:
            if it[1] is not None and self.time >= it[1]: it[1] = None
        while self.occurring():
            for i, it in enumerate(self.delayed):
                if it[1] is None: break
            else: break
            del self.delayed[i]
            self.doc.count('due')
            self.doc.eval(it[0])
    def do_start(self):
        self.time = 0
        if self.parent is not None and self.parent.is_ctx(): self.parent.awake += 1
        if self.getprop('focusIndex'): self.doc.settings.schedule_focus('')
    def do_stop(self):
        self.time = None
        for e in self.events: e.st = S
        self.delayed = []
        if self.parent is not None and self.parent.is_ctx(): self.parent.awake -= 1
    def start_parent(self):
        p = self.parent
        if p is not None and p.is_ctx() and p.sleeping():
            p.lam.par['fromport'] = 'true'
            self.doc.trans(p.lam, 'start')

class Context(Obj):
    def __init__(self, doc, d):
        Obj.__init__(self, doc, d)
        self.awake = 0
        self.status = d.get('linkstatus', True)
        self.children, self.ports, self.links = [], [], []
    def is_ctx(self): return True
    def tick(self, diff):
        Obj.tick(self, diff)
        if not self.occurring(): return
        n = self.awake
        if self.parent is None and not self.doc.settings.sleeping(): n -= 1
        if n == 0:
            self.doc.count('eos-context')
            self.doc.eval1(self.lam, 'stop')
    def before(self, ev, tr):
        if ev.T == 'P':
            if tr != 'start':
                for c in self.children: self.doc.trans(c.lam, tr)
            return True
        if ev.T == 'A': return tr not in ('pause', 'resume')
        return False
    def after(self, ev, tr):
        if ev.T == 'P':
            if tr == 'start':
                if self.time is None: self.do_start()
                self.start_parent()
                fp = ev.par.get('fromport', '')
                ev.par['fromport'] = ''
                if fp: return True
                for p in self.ports:
                    if p.T == 'P': self.add_delayed(p, 'start', '', 0)
            elif tr in ('stop', 'abort'): self.do_stop()
        elif ev.T == 'A':
            if tr == 'start': attribution(self, ev, ctx=True)
        return True

def attribution(o, ev, ctx=False):
    d = o.doc
    v = d.resolve(ev.par.get('value', ''))
    dur = 0
    s = ev.par.get('duration')
    if s is not None: dur = d.time(d.resolve(s))
    o.setprop(ev.id, v, dur)
    o.add_delayed(ev, 'stop', v, dur)

class Media(Obj):
    def __init__(self, doc, d):
        Obj.__init__(self, doc, d)
        self.pl = None
    def setprop(self, n, v, dur):
        Obj.setprop(self, n, v, dur)
        if self.pl is None: return
        if dur > 0:
            parts = {'bounds': ('left', 'top', 'width', 'height'), 'location': ('left', 'top'), 'size': ('width', 'height')}.get(n)
            if parts:
                for a, b in zip(parts, [x.strip() for x in v.split(',')]): self.setprop(a, b, dur)
                self.pl.props[n] = v
            elif n == 'background' and not (v and self.pl.props.get(n)): self.pl.set(n, v)   # nothing to interpolate
            elif n in ('left', 'top', 'width', 'height', 'transparency', 'background'):
                self.pl.props[n] = v          # animation: only the picture changes
                self.pl.anim[n] = [v, None, dur]
            else: self.pl.set(n, v)
        else: self.pl.set(n, v)
    def focused(self):
        return self.pl is not None and self.pl.focus != '' and self.pl.focus == self.doc.settings.getprop('service.currentFocus')
    def key(self, k, press):
        if self.sleeping() or self.pl is None: return
        if press and k.startswith('CURSOR_') and self.focused():
            n = {'CURSOR_UP': 'moveUp', 'CURSOR_DOWN': 'moveDown', 'CURSOR_LEFT': 'moveLeft', 'CURSOR_RIGHT': 'moveRight'}.get(k)
            nx = self.pl.props.get(n, '') if n else ''
            if nx:
                self.doc.settings.schedule_focus(nx)
                self.doc.count('focus-moves')
        if self.focused(): self.pl.script('key', 'press' if press else 'release', k)
        buf = []
        for e in self.events:
            if e.T != 'S': continue
            x = e.par.get('key', '')
            if x.startswith('$'): x = ''
            if (x == '' and k == 'ENTER' and self.focused()) or (x != '' and k == x): buf.append(e)
        for e in buf:
            self.doc.count('selections')
            self.doc.eval1(e, 'start' if press else 'stop')
    def tick(self, diff):
        Obj.tick(self, diff)
        if self.pl is None or not self.occurring(): return
        if self.pl.dur is not None and self.time > self.pl.dur:
            self.doc.count('eos-media')
            self.doc.eval1(self.lam, 'stop')
    def before(self, ev, tr):
        if ev.T != 'P': return tr not in ('pause', 'resume')
        if tr == 'start':
            if ev.lam and ev.st == P_: return self.pause_resume('resume')
            self.start_parent()
            if ev.st == S:
                if ev.lam: self.create()
                else:
                    if self.lam.st != S: return True
                    self.doc.trans(self.lam, 'start')
                    self.doc.count('anchor-entry')
                    b = ev.b or 0
                    self.pl.set('time', '')
                    if ev.n is not None:
                        self.pl.set('duration', '%d.%09d' % divmod(max(ev.n - b, 0), SEC))
                    keep = []
                    todo = self.delayed
                    for it in list(todo):
                        if it[1] is None or it[1] < b or (ev.n is not None and it[1] > ev.n):
                            if it[1] is not None and it[1] < b: self.doc.trans(it[0].ev, it[0].tr)
                        elif it[0].ev is ev and it[0].tr == 'start': pass
                        else:
                            it[1] -= b; keep.append(it)
                    self.delayed = keep
            return True
        if tr in ('pause', 'resume') and ev.lam: return self.pause_resume(tr)
        return True
    def create(self):
        d = self.doc
        self.props.setdefault('uri', ''); self.props.setdefault('type', '')
        uri, typ = self.props['uri'], self.props['type']
        mime = mime_of(uri, typ)
        d.out('P', self.id, 'new', '')
        # the media has no player yet while the player is created
        self.setprop('type', mime, 0)
        pl = self.pl = Pl(self)
        done = set()
        while True:               # live iteration over a sorted map
            last = max(done) if done else None
            nx = [k for k in self.props if last is None or k.encode('utf-8', 'surrogateescape') > last.encode('utf-8', 'surrogateescape')]
            if not nx: break
            k = min(nx, key=lambda x: x.encode('utf-8', 'surrogateescape'))
            pl.set(k, self.props[k]); done = {k}
        pl.cls = player_class(mime)
        pl.script('open', pl.props.get('width', ''), pl.props.get('height', ''))
        pl.script('presentation', 'start', '')
        pl.st = O
        d.out('P', self.id, 'start', 'ginga::' + pl.cls)
    def pause_resume(self, tr):
        c = self.lam.st
        for e in list(self.events):
            if not e.lam and e.T == 'P': self.doc.eval1(e, tr)
        if self.lam.st != c: return False
        self.pl.st = P_ if tr == 'pause' else O
        self.pl.script('presentation', tr, '')
        self.doc.out('P', self.id, tr, '')
        return True
    def after(self, ev, tr):
        if ev.T == 'P':
            if tr == 'start' and ev.lam:
                if self.time is None:
                    self.do_start()
                    for e in self.events:
                        if not e.lam and e.T == 'P' and not e.lab:
                            self.add_delayed(e, 'start', '', e.b)
                            self.add_delayed(e, 'stop', '', e.n)
            elif tr in ('start', 'stop') and ev.lab and not ev.lam:
                self.label_event(tr, ev.lab)
            elif tr == 'abort' and ev.lab and not ev.lam:
                self.label_event('stop', ev.lab)
            elif tr in ('stop', 'abort') and ev.lam: self.do_stop()
        elif ev.T == 'A':
            if tr == 'start': attribution(self, ev)
        return True
    def label_event(self, what, lab): self.pl.script('presentation', what, lab)
    def do_stop(self):
        if self.pl is None: return
        if self.pl.st != S:
            self.doc.out('P', self.id, 'stop', None)
            for x in (('presentation', 'stop', ''), ('cycle',), ('close',)): self.pl.script(*x)
        self.doc.out('P', self.id, 'delete', '')
        self.pl = None
        Obj.do_stop(self)

class Settings(Media):
    def __init__(self, doc, d):
        Media.__init__(self, doc, d)
        self.next, self.hasnext = '', False
    def tick(self, diff):
        if self.hasnext:
            n = self.next
            self.hasnext = False
            if n == '':
                for m in self.doc.medias:
                    i = m.getprop('focusIndex')
                    if m.occurring() and i != '' and (n == '' or i.encode('utf8') < n.encode('utf8')): n = i
            self.doc.count('focus-updates')
            self.doc.eval1(self.ev('A', 'service.currentFocus'), 'start', n)
        Media.tick(self, diff)
    def schedule_focus(self, n):
        self.hasnext, self.next = True, n

class Switch(Obj):
    def __init__(self, doc, d):
        Obj.__init__(self, doc, d)
        self.children, self.rules, self.swports = [], [], []
        self.sel = None
    def before(self, ev, tr):
        if ev.T != 'P': return False
        if ev.lam: evts = [c.lam for c in self.children]
        else: evts = dict(self.swports)[ev.id]
        d = self.doc
        if tr == 'start':
            if self.sel is not None:
                for e in evts:
                    if e.obj is self.sel:
                        d.trans(e, tr); return True
                return False
            for o, p in self.rules:
                m = [e for e in evts if e.obj is o]
                if not m: continue
                if d.pred(p):
                    if d.trans(m[0], tr):
                        self.sel = o
                        d.count('selected')
                        return True
                    return False
            d.count('nothing-selected')
            return False
        todo = [e for e in evts if ev.lam or e.obj is self.sel]
        # these come from a set: their order is left open
        if sum(1 for e in todo if d.legal(e, tr)) > 1: d.unordered = True
        for e in todo: d.trans(e, tr)
        if ev.lam and tr in ('stop', 'abort'): self.sel = None
        return True
    def after(self, ev, tr):
        d = self.doc
        if tr == 'start':
            if self.time is None: self.do_start()
            self.start_parent()
            if self.lam.st == S: d.trans(self.lam, 'start')
        elif tr in ('stop', 'abort'):
            if ev.lam: self.do_stop()
            elif self.sel is not None and self.sel.sleeping(): d.trans(self.lam, tr)
        return True

class Doc:
    BUDGET = 3000
    def __init__(self, dump):
        self.trace = []
        self.scripts = []
        self.counts = {}
        self.steps = 0
        K = {'Media': Media, 'MediaSettings': Settings, 'Context': Context, 'Switch': Switch}
        self.objs = [K[d['kind']](self, d) for d in dump['objects']]
        self.by = {o.id: o for o in self.objs}
        for o, d in zip(self.objs, dump['objects']):
            if d.get('parent') is not None: o.parent = self.by[d['parent']]
            o.aliases = [(a, self.by[p] if p is not None else None) for a, p in d['aliases']]
            if 'children' in d: o.children = [self.by[c] for c in d['children']]
            if o.kind == 'Context':
                o.ports = [self.find(e) for e in d['ports']]
                for cs, as_ in d['links']:
                    o.links.append(([(self.find(c['e']), c['tr'], c['p']) for c in cs],
                                    [Act(self.find(a['e']), a['tr'], a['v'], a['dur'], a['del'], a['p']) for a in as_]))
            elif o.kind == 'Switch':
                o.rules = [(self.by[c], p) for c, p in d['rules']]
                o.swports = [(l, [self.find(e) for e in es]) for l, es in d['swports']]
        self.root, self.settings = self.by[dump['root']], self.by[dump['settings']]
        self.medias = [self.by[m] for m in dump['medias']]
        self.playing = False
    def find(self, k):
        e = self.by[k[0]].ev(k[1], k[2])
        assert e is not None, k
        return e
    def byname(self, id):
        if id in self.by: return self.by[id]
        for o in self.objs:
            if any(a == id for a, _ in o.aliases): return o
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def out(self, *t): self.trace.append(t)
    # values
    def ref(self, s):
        """property reference -> value, or None"""
        if not s.startswith('$') or '.' not in s: return None
        i = s.find('.')
        while i >= 0:
            o = self.byname(s[1:i])
            if o is not None: return o.getprop(s[i + 1:])
            i = s.find('.', i + 1)
        return None
    def resolve(self, s):
        v = self.ref(s)
        return s if v is None else v
    def time(self, s): return parse_time(s)
    def pred(self, p):
        t = p['t']
        if t == 0: return False
        if t == 1: return True
        if t == 2:
            l, r = self.resolve(p['l']).encode('utf8', 'surrogateescape'), self.resolve(p['r']).encode('utf8', 'surrogateescape')
            return [l == r, l != r, l < r, l <= r, l > r, l >= r][p['op']]
        c = p.get('c', [])
        if t == 3: return not self.pred(c[0]) if c else True
        if t == 4: return all(self.pred(x) for x in c)
        return any(self.pred(x) for x in c)
    # transitions
    def legal(self, ev, tr):
        cur = ev.st
        return {'start': cur != O, 'pause': cur == O, 'resume': cur == P_, 'stop': cur != S, 'abort': cur != S}[tr]
    def trans(self, ev, tr):
        self.steps += 1
        if self.steps > self.BUDGET: raise Diverges()
        cur = ev.st
        if not self.legal(ev, tr): self.count('refused'); return False
        nxt = {'start': O, 'pause': P_, 'resume': O, 'stop': S, 'abort': S}[tr]
        if not ev.obj.before(ev, tr): self.count('failed'); return False
        if ev.st != cur: self.count('superseded'); return False     # a link changed it meanwhile
        ev.st = nxt
        if not ev.obj.after(ev, tr):
            ev.st = cur; return False
        self.out('E', ev.obj.id, ev.T, ev.id, tr, cur, nxt)
        self.count('transitions')
        return True
    def eval1(self, ev, tr, value=''): return self.eval(Act(ev, tr, value))
    def links(self, act, ctx):
        out = []
        if not ctx.status: return out
        for conds, acts in ctx.links:
            for e, tr, p in conds:
                if e is not act.ev or tr != act.tr: continue
                if p is not None and not self.pred(p): self.count('assessment-false'); continue
                self.count('links-fired')
                for a in reversed(acts):
                    dl = self.time(self.resolve(a.delay))
                    if dl == 0: out.append(a)
                    else:
                        self.count('delayed')
                        ctx.add_delayed(a.ev, a.tr, a.value, dl, a.dur)
        return out
    def eval(self, init):
        stack = [init]; n = 0; ready = None
        while stack:
            a = stack.pop()
            self.steps += 1
            if self.steps > self.BUDGET: raise Diverges()
            ev = a.ev
            ev.par['duration'] = a.dur
            if ev.T == 'A': ev.par['value'] = a.value
            asleep = ev.obj.sleeping()
            if ev is not ready and not self.trans(ev, a.tr): continue
            whole = ev.obj.kind == 'Switch' and not ev.lam and asleep != ev.obj.sleeping()
            ready = None
            n += 1
            o = ev.obj
            c = o.parent
            if ev.T == 'A' and a.tr == 'start' and o.sleeping():
                stack.append(Act(ev, 'stop', a.value, a.dur))
            done = set()
            if c is not None and c.is_ctx() and c.occurring():
                stack += self.links(a, c); done.add(c)
                inner, c = c, c.parent
                while c is not None and c.is_ctx() and c.occurring():
                    if not any(p.obj is o for p in inner.ports): break
                    self.count('port-links')
                    stack += self.links(a, c); done.add(c)
                    inner, c = c, c.parent
            elif c is not None and c.kind == 'Switch':
                for lab, evs in c.swports:
                    for m in evs:
                        if m is ev and c.sel is o and c.parent is not None:
                            self.count('switch-port-mapped')
                            self.eval(Act(c.ev('P', lab), a.tr, a.value, a.dur))
                if ev.lam and c.sel is o and a.tr in ('stop', 'abort'): self.eval1(c.lam, a.tr)
            if o.is_ctx(): stack += self.links(a, o)
            else:
                for _, p in o.aliases:
                    if p is not None and p.is_ctx() and p.occurring() and p not in done:
                        done.add(p)
                        self.count('alias-links')
                        stack += self.links(a, p)
            if whole:
                # the port started or ended the whole switch
                ready = o.lam
                stack.append(Act(ready, a.tr, a.value, a.dur))
        return n
    # requests
    def begin(self):
        self.trace = []; self.scripts = []; self.steps = 0; self.unordered = False
    def start(self):
        """Formatter::start after parsing"""
        n = self.eval1(self.root.lam, 'start')
        if n: self.trans(self.settings.lam, 'start')
        self.playing = n > 0
    def check_eos(self):
        if self.playing and self.root.sleeping():
            self.playing = False; self.destroy()
    def tick(self, diff):
        if not self.playing: return False
        self.check_eos()
        if not self.playing: return False
        for o in [o for o in self.objs if o.occurring()]: o.tick(diff)
        return True
    def key(self, k, press):
        if not self.playing: return False
        self.check_eos()
        if not self.playing: return False
        for o in [o for o in self.objs if not o.sleeping()]: o.key(k, press)
        return True
    POSTED = {'start': 'start', 'stop': 'stop', 'abort': 'abort', 'pause': 'pause', 'resume': 'resume'}
    def draw(self):
        """one frame: scripts run, finished animations assign, what scripts posted becomes due at once"""
        if not self.playing: return
        for m in self.medias:
            if m.pl is None or m.sleeping(): continue
            m.pl.script('cycle')
            # an animation runs from the first frame that shows it; it may end early only where there is nothing to interpolate
            for n, a in m.pl.anim.items():
                if a[1] is None: a[1] = m.time
                if m.st() != O: a[2] = 1 << 70      # may end unheard
            for T, act, name, value in m.pl.posts:
                if act not in self.POSTED: self.count('bad posts'); continue
                if T == 'presentation':
                    ev = m.lam if name == '' else next((e for e in m.events if e.T == 'P' and e.lab == name), None)
                elif T == 'attribution': ev = m.ev('A', name)
                else: continue
                if ev is None: self.count('bad posts'); continue
                self.count('posts')
                m.add_delayed(ev, act, value if T == 'attribution' else '', 0)
            m.pl.posts = []
    def destroy(self):
        def kill(o):
            if o.kind in ('Context', 'Switch'):
                self.trans(o.lam, 'stop')
                for c in o.children: kill(c)
            else: o.do_stop()
        kill(self.root)
    def stop(self):
        if not self.playing: return False
        self.destroy(); self.playing = False
        return True
    def resize(self):
        if not self.playing: return
        for m in self.medias:
            for p in ('top', 'left'):
                if m.getprop(p): m.setprop(p, m.getprop(p), 0)
            for p in ('width', 'height'): m.setprop(p, m.getprop(p), 0)
            for p in ('bottom', 'right'):
                if m.getprop(p): m.setprop(p, m.getprop(p), 0)
    def states(self):
        """{obj: (state, time, {events})} as the driver's `state`"""
        return {o.id: (o.st(), -1 if o.time is None else o.time,
                       frozenset((e.T, e.id, e.st) for e in o.events if e.st != S and not e.lam)) for o in self.objs}
