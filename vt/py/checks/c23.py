from engine import *
from urllib.parse import quote, unquote
import json
ID = 'C23'
QUICK, THOROUGH = 4000, 150000
PER_SESSION = 60
RULE = ('the real service, on a loopback port, is sent byte streams over TCP while presentations run in lockstep with the reference interpreter: valid selection and look requests in many wire forms '
        '(chunked, odd header case, HTTP/1.0, percent-encoded paths, escaped JSON), near-valid ones (unknown node, event, route or action, ill-typed, truncated or deeply nested JSON), garbage and '
        'abandoned connections; registrations of players against documents with remote media, with a recording player on the other side; starts and stops of the service with failing ports and '
        'discovery. Each answer is judged, and the transitions and state after each request must be those of the request, or unchanged')

RES = '!$&\'()*+,;=:@-._~'
def enc_path(r, s):
    return ''.join(c if (c.isalnum() and c.isascii() or c in RES) and r.random() < .85 else ''.join(('%%%02X' if r.random() < .7 else '%%%02x') % b for b in c.encode('utf-8', 'surrogateescape')) for c in s)

def jstr(r, s):
    if r.random() < .7: return json.dumps(s, ensure_ascii=r.random() < .5)
    return '"' + ''.join('\\u%04x' % ord(c) if (r.random() < .4 and ord(c) < 0x10000) or c in '"\\' or ord(c) < 32 else c for c in s) + '"'
def many(r, l):
    if r.random() < .3: l = l + ['video/x-%d' % j for j in range(r.choice([2, 5, 12, 40]))]; r.shuffle(l)
    return l
def jobj(r, d):
    it = list(d.items()); r.shuffle(it)
    w = lambda: r.choice(['', '', ' ', '\n ', '\t']) if r.random() < .98 else r.choice([' ', '\n', '\t ', '\r\n']) * r.choice([40, 500, 3000, 40000])
    return w() + '{' + ','.join('%s%s%s:%s%s%s' % (w(), jstr(r, k), w(), w(), jstr(r, v) if isinstance(v, str) else json.dumps(v), w()) for k, v in it) + '}' + w()

def wire(r, path, body, method='POST', plain=False):
    """bytes (as latin-1 text) of a request"""
    b = body if isinstance(body, bytes) else body.encode('utf-8', 'surrogatepass')
    b = b.decode('latin-1')
    v = 'HTTP/1.1'
    h = [('Host', r.choice(['127.0.0.1', 'localhost:44642', 'x']))]
    if r.random() < .3: h.append(('Content-Type', r.choice(['application/json', 'text/plain', 'application/json; charset=utf-8'])))
    if r.random() < .2: h.append(('X-' + 'y' * r.randint(1, 200), 'z' * r.randint(0, 500)))
    if r.random() < .2: h.append(('Connection', r.choice(['close', 'keep-alive'])))
    if not plain and r.random() < .25:
        h.append(('Transfer-Encoding', 'chunked'))
        out, i = '', 0
        while i < len(b):
            n = r.randint(1, max(1, len(b) - i)); out += '%x\r\n%s\r\n' % (n, b[i:i + n]); i += n
        b = out + '0\r\n\r\n'
    else: h.append(('Content-Length', str(len(b))))
    if r.random() < .1 and not any(k == 'Transfer-Encoding' for k, _ in h): v = 'HTTP/1.0'
    r.shuffle(h)
    cs = r.choice([str, str, str.lower, str.upper])
    if r.random() < .1: path = 'http://127.0.0.1' + path
    return '%s %s %s\r\n' % (method, path, v) + ''.join('%s:%s%s\r\n' % (cs(k), r.choice([' ', ' ', '', '  ']), x) for k, x in h) + '\r\n' + b

def apps(r, node): return '/current-service/apps/%s/%s/%s' % (r.choice(['1', 'x', 'my%20app']), r.choice(['ncl', 'd', '%C3%A9']), enc_path(r, node))

def valid(r, m):
    """a request for an event that exists, or None"""
    es = [(o, e) for o in m.objs for e in o.events if e.T in 'SL']
    if not es: return None
    o, e = r.choice(es)
    if e.T == 'S':
        d = dict(action='select', value=e.id)
        if r.random() < .2: d['interface'] = r.choice(['x', ''])
        if e.id == '' and r.random() < .5: del d['value']
        ev = [(o.id, 'S', e.id, 'start'), (o.id, 'S', e.id, 'stop')]
    else:
        a = r.choice(['lookAt', 'lookAway'])
        d = dict(action=a, interface=e.id)
        if e.id == '@lambda' and r.random() < .6: d.pop('interface') if r.random() < .5 else d.update(interface='')
        if r.random() < .2: d['value'] = r.choice(['x', ''])
        ev = [(o.id, 'L', e.id, 'start' if a == 'lookAt' else 'stop')]
    if r.random() < .2: d[r.choice(['delay', 'x', '\u00e9'])] = r.choice([0, None, [1], 'y', {'a': 1}])
    p = apps(r, o.id)
    if r.random() < .1: p += '?' + r.choice(['x=1', '', 'a&b'])
    return ['web', wire(r, p, jobj(r, d)), ev, 'ok', 0]

def invalid(r, m):
    objs = [o.id for o in m.objs] if m else ['m']
    es = [(o, e) for o in m.objs for e in o.events if e.T in 'SL'] if m else []
    o, e = r.choice(es) if es else (None, None)
    oid = o.id if o else r.choice(objs)
    good = dict(action='select' if e is None or e.T == 'S' else r.choice(['lookAt', 'lookAway']))
    if e is not None: good['value' if e.T == 'S' else 'interface'] = e.id
    k = r.randrange(14)
    if k == 0: return wire(r, '/' + r.choice(['', 'x', 'current-service', 'current-service/apps', 'apps/1/ncl/m', '..', '%00', 'favicon.ico']), jobj(r, good)), 'bad'
    if k == 1: return wire(r, apps(r, 'nosuch' + oid), jobj(r, good)), 'bad'
    if k == 2:
        d = dict(good, action=r.choice(['start', 'stop', 'pause', 'SELECT', 'Select', 'lookat', '', ' select', 'selectx', 'lookAway ', 'seleccion']))
        return wire(r, apps(r, oid), jobj(r, d)), 'bad'
    if k == 3:
        d = dict(good); x = r.choice(list(d) + ['value', 'interface'])
        d[x] = r.choice([1, True, ['select'], {'a': 1}, 1.5, False])
        return wire(r, apps(r, oid), jobj(r, d)), 'bad'
    if k == 4:
        b = jobj(r, good).strip()
        return wire(r, apps(r, oid), r.choice([b[:-1], b[1:], b[:len(b) // 2], b.replace(':', '=', 1), '', '[' + b + ']', '"select"', '1', 'null', 'true', '\x00', b'\xff\xfe', '{' * 3000, '[' * 5000, '{"a":' * 2000, b.replace('"', "'")])), 'bad'
    if k == 5:
        miss = r.choice([dict(action='select', value='nosuchkey'), dict(action='lookAt', interface='nosuch'), dict(action='lookAway', interface='no such')])
        return wire(r, apps(r, oid), jobj(r, miss)), 'bad'
    if k == 6: return wire(r, '/current-service/apps/' + r.choice(['', '1', '1/', '1/ncl', '1/ncl/', '/ncl/' + enc_path(r, oid), '1//' + enc_path(r, oid), '//']), jobj(r, good)), 'bad'
    if k == 7: return wire(r, apps(r, oid), '', r.choice(['GET', 'HEAD', 'DELETE', 'OPTIONS', 'POST', 'PUT'])), 'bad'
    if k == 8:
        d = dict(location='http://127.0.0.1:1/x', deviceType='D', supportedFormats=['a/b'], recognizableEvents=['selection'])
        q = r.choice([0, 1, 2, 3, 3, 4])
        if q == 0: d.pop(r.choice(list(d)))
        elif q == 1: d[r.choice(list(d))] = r.choice([1, None, {}, True, ''])
        elif q == 2: d[r.choice(['supportedFormats', 'recognizableEvents'])] = r.choice([[], [1], [None], 'x', [['a']]])
        elif q == 3: d['location'] = r.choice(['', 'x', '/x', 'http://', 'ftp://a/b', 'file:///etc', '\u00e9', 'http:/x', '::', 'http', 'http:///x', 'http://:80/x', 'https://', 'http://@/x'])
        elif q == 4: return wire(r, '/remote-mediaplayer', jobj(r, d)[:-3]), 'bad'
        return wire(r, '/remote-mediaplayer', jobj(r, d)), 'bad'
    # not even HTTP, or abandoned: the answer is not judged
    if k == 9: return ''.join(chr(r.randrange(256)) for _ in range(r.randint(0, 400))) + r.choice(['', '\r\n\r\n']), None
    if k == 10:
        w = wire(r, apps(r, oid), jobj(r, good), plain=True)
        return w[:r.randint(0, w.index('\r\n\r\n'))], None
    if k == 11: return 'POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %s\r\n\r\n%s' % (apps(r, oid), r.choice(['-1', 'x', '99999', '18446744073709551615', '1 2']), '{'), None
    if k == 12: return 'POST %s HTTP/%s\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n%s' % (apps(r, oid), r.choice(['1.1', '2.0', '9.9', '1.0']), r.choice(['zz\r\n', 'ffffffffffffffff\r\nx', '-1\r\n\r\n', '5\r\nab', '0\r\n'])), None
    return r.choice(['GET', 'POST', '\x00']) + ' ' + r.choice(['/' + 'a' * 20000, '*', 'http://[::1/x', '//', '/%', '/%zz', '\xff', '/current-service/apps/%00/%2f/%00']) + ' HTTP/1.1\r\nHost: x\r\n' + r.choice(['', 'A' * 30000 + ': b\r\n', 'x\r\n', ': y\r\n']) + '\r\n', None

def running(w, i, rng):
    """requests against a running presentation"""
    n = [0, 0]
    def req(L, O):
        m = L.m
        x = rng.random()
        if x < .45:
            v = valid(rng, m)
            if v: n[0] += 1; w.count('valid requests'); w.count('valid ' + v[2][0][1]); return v
        if x < .8:
            b, j = invalid(rng, m)
            n[1] += 1; w.count('invalid requests' if j else 'garbage')
            return ['web', b, [], j, int(j is None)]
        return O.next(m)
    def first(L, O):
        if not n[0] and not n[1] and L.s.r('wsstate')[0] != '0': L.s.r('wsstart')
        return req(L, O)
    def after(L):
        if not L.m or not L.m.playing:
            # no presentation: nothing can be asked
            if L.s.r('wsstate')[0] == '0':
                v = valid(rng, L.m) if L.m else None
                if v:
                    w.count('requests without presentation')
                    o = L.s.cmd('http', v[1].encode('latin-1'), 0)
                    answered(o, 'bad', v)
                    if any(t[0] in 'EP' for t in o): raise Violation('effect without presentation', repr(o)[:500])
    lockcase(w, rng, dict(sel=.9, lookat=.5, links=(2, 6), depth=2, odd_ids=.5, nopark=1), dict(tick=30, key=20, act=30), nops=(6, 25), each=first, after=after, structure=False,
             crit=lambda d: n[0] and n[1])

IDS = ['m', 'a b', 'q"q', 'x\\y', '\u00e9', 'p?q', 'h#h', "it's", 'p%41']
IDS2 = ['m', 'a.b', 'h#h', 'x:y', '-p', '_']
def attr(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
def register(w, i, r):
    s = w.session()
    s.cmd('new', 320, 240, '', 0, 0, 0)
    if s.r('wsstart') != ['1']: raise Violation('start', 'the service does not start')
    port = s.r('rserve')[0]
    lua = r.random() < .5
    ids = r.sample(IDS if lua else IDS2, r.randint(1, 5))
    ms, xml = {}, ''
    for m in ids:
        k = r.random()
        dev = r.choice(['D1', 'D2', 'D 3', '']) if k < .7 else ''
        typ = r.choice(['application/x-ncl360', 'application/foo', 'x/y']) if k > .3 else r.choice(['', 'application/x-ncl360', 'application/bar'])
        src = r.choice(['', 'a.bin', 'a%22b.bin'])
        if not typ and not dev: src = ''
        remote = bool(dev) or typ == 'application/x-ncl360'
        if not remote: src = ''
        ms[m] = dict(dev=dev, type=typ, remote=remote, url='', src='file://%s/%s' % (w.dir, src) if src else '')
        areas = {} if lua else {'%s-k%d' % (m, j): r.choice(['L%d' % j, 'a b', 'q"q', '\u00e9', 'p/q?r#s', 'intro', m]) for j in range(r.choice([0, 1, 2, 3]))}
        geo = {} if lua else {n: r.choice(['10%', '5', '25%', '0']) for n in ('left', 'top', 'width', 'height') if r.random() < .3}
        ms[m].update(areas=areas, geo=geo, on={})
        inner = ''.join('<area id="%s"%s/>' % (a, ' label="%s"' % attr(l)) for a, l in areas.items()) + ''.join('<property name="%s" value="%s"/>' % x for x in geo.items())
        xml += '<media id="%s"%s%s>%s%s</media>' % (attr(m), ' src="%s"' % attr(src) if src else '', ' type="%s"' % typ if typ else '', '<property name="device" value="%s"/>' % dev if dev or r.random() < .2 else '', inner)
    doc = '<?xml version="1.0" encoding="UTF-8"?><ncl><head/><body><port id="pt" component="tt"/><media id="tt"/>%s</body></ncl>' % xml
    if lua:
        q = lambda x: '"' + ''.join('\\%03d' % b for b in x.encode()) + '"'
        doc = 'return {"context","main",nil,{"tt@lambda"},{{"media","tt"},%s},nil}' % ','.join('{"media",%s,{%s}}' % (q(m), ','.join('%s=%s' % (k, q(v)) for k, v in dict(src=os.path.basename(x['src']), type=x['type'], device=x['dev']).items() if v)) for m, x in ms.items())
        for x in ms.values(): x['src'] = x['src'].replace('%22', '%2522')
    log = []
    w.note = dict(document=doc, requests=log)
    a = s.r('start', w.write('r.lua' if lua else 'r.ncl', doc))
    if a[0] != '1': raise Violation('document refused', a[1])
    s.cmd('tick', 0, 0, 0)
    state = {m: 'z' for m in ms}
    def qs(lines): return [(t[1], dec(t[2]), dec(t[3])) for t in lines if t[0] == 'Q']
    def collect(first, n):
        q = qs(first)
        for _ in range(300):
            if len(q) >= n: break
            q += qs(s.cmd('pump', 3))
        return q + qs(s.cmd('pump', 3))
    for _ in range(r.randint(6, 22)):
        k = r.random()
        if k < .45:
            loc = 'http://127.0.0.1:%s/p%d' % (port, r.randint(0, 3))
            d = dict(location=loc, deviceType=r.choice(['D1', 'D2', 'D 3', 'none']), supportedFormats=many(r, r.sample(['application/x-ncl360', 'application/foo', 'x/y', 'zz'], r.randint(1, 3))), recognizableEvents=['selection'])
            raw = wire(r, '/remote-mediaplayer', jobj(r, d))
            log.append(['register', raw])
            match = [m for m, x in ms.items() if x['remote'] and (x['dev'] == d['deviceType'] or x['type'] in d['supportedFormats'])]
            o = s.cmd('http', raw.encode('latin-1'), 0)
            if not any(x['remote'] for x in ms.values()): answered(o, 'bad', log[-1])
            elif match: answered(o, 'ok', log[-1])
            w.count('registrations'); w.count('matched media', len(match))
            for m in match: ms[m]['url'] = loc
            q = collect(o, len(match))
            got = []
            for meth, path, body in q:
                try: j = json.loads(body)
                except ValueError: raise Violation('player told', 'the player is sent invalid JSON: %s' % body)
                if meth != 'POST' or path != loc[loc.index('/', 8):]: raise Violation('player told', 'the player is told by %s %s' % (meth, path))
                got.append((j.get('sceneNode'), j.get('sceneURL')))
            exp = sorted((m, ms[m]['src']) for m in match)
            if sorted(got) != exp: raise Violation('player told', 'a player registered for %s; told of %s, expected %s' % (match, sorted(got), exp))
        elif k < .6:
            b, j = invalid(r, None)
            log.append(['invalid', b])
            o = s.cmd('http', b.encode('latin-1'), int(j is None)); answered(o, j, log[-1]); w.count('invalid registrations and requests')
            if qs(o): raise Violation('player told', 'an invalid request makes the engine call %s' % qs(o))
        else:
            m = r.choice(list(ms)); x = ms[m]
            st = state[m]
            if st == 'o' and x['areas'] and r.random() < .65:
                # a labelled anchor begins or ends: the player is told, under the name of the anchor
                a = r.choice(sorted(x['areas'])); tr = r.choice(['stop', 'abort']) if x['on'].get(a) else 'start'
                log.append([tr, m, a])
                o = s.cmd('act', m, 'P', a, tr, '')
                x['on'][a] = tr == 'start'
                told = x['remote'] and x['url']
                q = collect(o, 1 if told else 0)
                if not told:
                    if q: raise Violation('player action', '%s of %s of %s, which has no player, calls %s' % (tr, a, m, q))
                    continue
                w.count('player anchors')
                e = x['url'][x['url'].index('/', 8):] + '/scene/nodes/' + quote(x['areas'][a], safe='-._~')
                try: acts = [(p, json.loads(b)['action']) for _, p, b in q]
                except (ValueError, KeyError, TypeError): raise Violation('player anchor', 'the player is sent %s' % q)
                if len(acts) != 1 or acts[0][1] not in ((tr, 'stop') if tr == 'abort' else (tr,)) or unquote(acts[0][0]) != unquote(e):
                    raise Violation('player anchor', '%s of anchor %s (label %r) of %s calls %s, expected %s' % (tr, a, x['areas'][a], m, acts, e))
                continue
            tr = r.choice({'z': ['start'], 'o': ['pause', 'stop', 'abort'], 'p': ['resume', 'stop']}[st])
            log.append([tr, m])
            o = s.cmd('act', m, 'P', '@lambda', tr, '')
            state[m] = {'start': 'o', 'pause': 'p', 'resume': 'o', 'stop': 'z', 'abort': 'z'}[tr]
            if state[m] == 'z': x['on'] = {}
            told = x['remote'] and x['url']
            q = collect(o, 1 if told else 0)
            if not told:
                if q: raise Violation('player action', '%s of %s, which has no player, calls %s' % (tr, m, q))
                continue
            w.count('player actions')
            if len(q) != 1: raise Violation('player action', '%s of %s calls its player %d times: %s' % (tr, m, len(q), q))
            meth, path, body = q[0]
            e = x['url'][x['url'].index('/', 8):] + '/scene/nodes/' + m
            try: act = json.loads(body)['action']
            except (ValueError, KeyError): raise Violation('player action', 'the player is sent %s' % body)
            if path != e or meth != 'POST' or act not in ((tr, 'stop') if tr == 'abort' else (tr,)): raise Violation('player action', '%s of %s calls %s %s with %s, expected %s' % (tr, m, meth, path, act, e))
            if tr == 'start' and not lua:
                try: b = {k: str(v) for k, v in json.loads(body)['properties']['bounds'].items()}
                except (KeyError, AttributeError): raise Violation('player action', 'the player is not told where %s is: %s' % (m, body))
                if any(b.get(n) != v for n, v in x['geo'].items()): raise Violation('player action', 'the player of %s is told of bounds %s, declared %s' % (m, b, x['geo']))
        for m, x in ms.items():
            u = s.r('getprop', m, 'remotePlayerBaseURL')[0]
            if u != x['url']: raise Violation('registration', 'after %s: the player of %r (device %r, type %r) is %r, expected %r' % (log[-1], m, x['dev'], x['type'], u, x['url']))
    w.seen('reg', doc, len(log), w.hist[-1])
    # the end of the presentation ends what the players play
    on = sorted(m for m, x in ms.items() if state[m] != 'z' and x['remote'] and x['url'])
    q = collect(s.cmd('del'), len(on))
    got = sorted(p[p.index('/nodes/') + 7:] for _, p, b in q if json.loads(b)['action'] == 'stop')
    if got != on or len(q) != len(on): raise Violation('player action', 'the end of the presentation calls %s, expected a stop of %s' % (q, on))

def lives(w, i, r):
    """starts and stops"""
    s = w.session()
    s.cmd('new', 320, 240, '', 0, 0, 0); s.r('wsport'); s.cmd('wsfail', 0, 0)
    up, hp, opt = False, None, False
    log = []
    w.note = dict(requests=log)
    has = False
    for _ in range(r.randint(5, 25)):
        k = r.choice(['start', 'start', 'stop', 'stop', 'fail', 'option', 'play', 'location', 'route', 'new', 'garbage'])
        log.append([k])
        if k in ('start', 'option', 'play', 'fail'):
            f = (0, 0)
            if k == 'fail' or r.random() < .2: f = r.choice([(1, 0), (0, 1), (0, 1), (0, 2)])
            s.cmd('wsfail', *f); log[-1] += list(f)
            before = up
            if k == 'option':
                v = r.random() < .6; log[-1].append(v)
                s.cmd('setb', 'webservices', int(v)); opt = v
                if not v: up = False
            elif k == 'play':
                if has: s.cmd('stop')
                v = opt
                if s.r('start', w.write('l.ncl', '<ncl><head/><body><port id="p" component="m"/><media id="m"/></body></ncl>'))[0] != '1': raise Violation('start', 'the document does not start')
                has = True
            else:
                v = True
            if v and not up: up = not f[0] and f[1] < 2; hp = 44642 + f[1] if up else None
            if k in ('start', 'fail'):
                pass
            if k in ('start', 'fail'):
                g = s.r('wsstart')[0]
                if g != str(int(up)): raise Violation('start', 'starting the service (failures %s) returns %s, expected %s' % (f, g, up))
            s.cmd('wsfail', 0, 0)
            asked = s.r('wsport')[1:]
            ne = [] if not v or before or f[0] else [44642, 44643][:min(2, f[1] + 1)]
            if [int(x) for x in asked] != ne: raise Violation('ports', 'after %s: ports %s are asked for, expected %s' % (log[-1], asked, ne))
        elif k == 'stop':
            g = s.r('wsstop')[0]
            if g != str(int(up)): raise Violation('stop', 'stopping the service returns %s, expected %s' % (g, up))
            up = False
        elif k == 'new':
            s.cmd('del'); s.cmd('new', 320, 240, '', 0, 0, 0); up = opt = has = False
        elif k == 'location':
            o = s.cmd('http', wire(r, '/location', '', r.choice(['GET', 'POST'])).encode('latin-1'), 0)
            st, h, b = response(o)
            if up:
                w.count('locations')
                e = {'gingacc-server-baseurl': 'http://127.0.0.1:%d' % hp, 'gingacc-server-securebaseurl': 'https://127.0.0.1:%d' % hp, 'gingacc-server-pairingmethods': 'qcode,kex'}
                if st != 200 or any(h.get(a) != b for a, b in e.items()): raise Violation('location', 'answer %s %s, expected %s' % (st, h, e))
            elif st is not None and listening(s): raise Violation('stopped', 'a stopped service answers')
        else:
            b, j = invalid(r, None)
            o = s.cmd('http', b.encode('latin-1'), int(j is None))
            st = response(o)[0]
            if up: answered(o, j, b)
            elif st is not None and listening(s): raise Violation('stopped', 'a stopped service answers')
        g = s.r('wsstate')
        el = 'http://127.0.0.1:%d/location' % hp if up else ''
        if g[0] != ('0' if up else '1') or g[1] != el: raise Violation('state', 'after %s: the service is %s and announced at %r, expected %s, %r' % (log[-1], 'up' if g[0] == '0' else 'down', g[1], 'up' if up else 'down', el))
        w.count('life steps')
    w.seen('life', i)
    s.cmd('del')

def listening(s):
    """does the engine's own process listen anywhere (another process may have got the port meanwhile)"""
    own = set()
    for f in os.listdir('/proc/%d/fd' % s.p.pid):
        try: own.add(os.readlink('/proc/%d/fd/%s' % (s.p.pid, f)))
        except OSError: pass
    for fn in ('/proc/net/tcp', '/proc/net/tcp6'):
        if not os.path.exists(fn): continue
        for l in open(fn).read().split('\n')[1:]:
            x = l.split()
            if len(x) > 9 and x[3] == '0A' and 'socket:[%s]' % x[9] in own: return True
    return False

def case(w, i, rng):
    k = rng.random()
    (running if k < .6 else register if k < .85 else lives)(w, i, rng)
    if i % 15 == 0:
        w.count('leak checks')
        s = w.session(); s.cmd('pump', 5)
        if s.r('leak')[0] != '0': raise Violation('leak', s.stderr()[-3000:])
