from engine import *
import copy, ltab, mut
ID = 'C15'
QUICK, THOROUGH = 3000, 100000
TIMEOUT = 60
RULE = ('random presentations written both as XML and as a Lua table in random spelling (quotes, long strings, escapes, numbers, separators, key forms), loaded by the real table '
        'loader and compared with the structure the XML form declares, a part of them then run in lockstep; and malformed tables (fields missing, of another type, exchanged, '
        'duplicated, out of range), mutated chunk texts, chunks that fail, return something else or are not Lua, which must be refused with a message or give a document that runs; '
        'non-trivial when a valid table with a link or rule is compared or a malformed one is refused')
KNOBS = [dict(), dict(compound=.8, assess=.9), dict(switch=.7, ruledepth=4), dict(depth=4, ctx=.5), dict(sel=.9, custom_role=.7), dict(settings=.9, props=.9, ctx_props=.8), dict(area=.9, delay=.6, dur=.6),
         dict(desc=1), dict(links=(4, 12), medias=(8, 25))]
BASE = dict(refer=0, odd_ids=0, label=0, swport=0, desc=0, regions=0, portprop=0, selfbind=0, trans=0)
TRK = ['subtype', 'dur', 'startProgress', 'endProgress', 'direction', 'fadeColor', 'horzRepeat', 'vertRepeat', 'borderWidth', 'borderColor']
DEF = dict(dur='0', startProgress='0', endProgress='0', direction='forward', horzRepeat='0', vertRepeat='0', borderWidth='0')

def make(w, rng):
    """-> (doc, expectation, table) of an expressible document"""
    for _ in range(60):
        k = dict(BASE, **rng.choice(KNOBS))
        if rng.random() < .6: k['switch'] = k.get('switch', .2)
        d = Gen(rng, **k).doc()
        if rng.random() < .5:
            # ids as the table notation allows them
            pass
        uri = lambda x: 'file://%s/%s' % (w.dir, x)
        o = spec.expect(d, 320, 240, uri=uri)
        try: t, o = ltab.table(d, o, rng)
        except ltab.Multi: continue
        return d, o, t
    raise Skip('not expressible')

def text(t, rng):
    s = ltab.lua(t, rng)
    k = rng.random()
    pre = rng.choice(['', '', '-- comment\n', '--[[ a\n b ]]'])
    if k < .15: s = pre + 'local x = ' + s + ' ; return x'
    elif k < .25: s = pre + 'return ' + s + ', 1, nil, {}'
    elif k < .35: s = pre + 'local function f() return ' + s + ' end\nreturn (f())'
    else: s = pre + 'return ' + s + rng.choice(['', '\n', ';'])
    return s.encode('latin-1')

def withtrans(t, o, rng):
    """adds transition tables to medias"""
    def go(c):
        if c[0] == 'media':
            if c[1] in o and o[c[1]]['kind'] == 'Media' and rng.random() < .3:
                if len(c) < 3: c.append(None)
                if c[2] is None: c[2] = {}
                for n in rng.sample(['transIn', 'transOut'], rng.randint(1, 2)):
                    v = {'type': rng.choice(['fade', 'barWipe'])}
                    for k in rng.sample(TRK, rng.randint(0, 6)): v[k] = rng.choice(['1s', '0.5', '2', 'red', ltab.Num('3'), ltab.Num('0.5')])
                    c[2][n] = v
                    g = lambda k: (lambda x: x.s if isinstance(x, ltab.Num) else x)(v.get(k, DEF.get(k, '')))
                    o[c[1]]['events'][('A', n)] = (0, None, '', None)
                    o[c[1]]['props'][n] = '{' + ','.join("%s='%s'" % (k, g(k)) for k in ['type'] + TRK) + ',}'
            return
        for x in (c[4] if c[0] == 'context' and len(c) > 4 else c[2] if c[0] == 'switch' and len(c) > 2 else None) or []: go(x)
    go(t)

def norms(d):
    for x in d['objects']:
        if x['id'] == '__settings__': x['props'].pop('type', None)
    return d

def faithful(w, rng, s):
    from checks.c11 import dump_of
    d, o, t = make(w, rng)
    live = rng.random() < .35
    if not live and rng.random() < .4: withtrans(t, o, rng)
    txt = text(t, rng)
    p = w.write('d.lua', rng.choice([b'', b'', b'', b'#!/usr/bin/lua\n', b'\xef\xbb\xbf']) + txt)
    w.note = dict(table=txt.decode('latin-1'), xml=d.xml())
    ltab.canonall(o)
    e = dict(o)
    if live:
        s.cmd('new', 320, 240, '', 0, 0, 0)
        L = Lock(s, w.stats)
        if not L.start(p):
            if L.err: raise Violation('refused', 'a valid table is refused: ' + L.err)
            w.count('nothing-started')
            dump = None
        else:
            dump = L.dump
            legal_trace(L.raw, 'start', L.last)
            w.note['requests'] = L.ops
            df = spec.diff(e, norms({'objects': ltab.canonall(copy.deepcopy(dump['objects']))}))
            if df: raise Violation('structure', df)
            O = Ops(rng)
            for _ in range(rng.randint(3, 30)):
                if not L.m.playing: break
                op = O.next(L.m)
                if op[0] == 'act' and op[2] == 'A' and op[3] in ('uri', 'src', 'type'): continue    # a content that cannot be loaded is a diagnosed end
                L.do(op); legal_trace(L.raw, op, L.last)
            w.count('behaviours')
        s.cmd('del')
    else:
        base = p
        buf = rng.random() < .3 and not any(m.src for m in d.medias())
        r = s.r('parseluabuf', txt, 320, 240) if buf else s.r('parselua', p, 320, 240)
        if r[0] != '1': raise Violation('refused', 'a valid table is refused: ' + r[1])
        dump = dump_of(s)
        df = spec.diff(e, norms({'objects': ltab.canonall(dump['objects'])}))
        s.cmd('unparse')
        if df: raise Violation('structure', df)
        if rng.random() < .04:
            w.count('leak checks')
            if s.r('leak')[0] != '0': raise Violation('leak', 'memory is lost after loading a table: ' + frames(s.stderr()))
    w.count('faithful')
    w.count('links', sum(len(x.get('links', ())) for x in o.values())); w.count('rules', sum(len(x.get('rules', ())) for x in o.values()))
    w.count('anchors', sum(1 for x in o.values() for ev in x['events'] if ev[0] == 'P' and ev[1] != '@lambda'))
    if any(x.get('links') or x.get('rules') for x in o.values()): w.seen(txt); w.sample(dict(table=txt.decode('latin-1')[:1200]))

BAD = [None, True, False, '', ltab.Num('0'), ltab.Num('-1'), ltab.Num('1e400'), ltab.Num('0/0'), ltab.Num('2^53'), [], {}, [[]], ['x'], {'x': 'y'}, ltab.Raw('print'), ltab.Raw('function() end'),
       ltab.Raw('io.stdout'), ltab.Raw('coroutine.create(print)'), 'context', 'media', 'switch', '@', '.', '<', '<>', 'm@', 'm1@lambda', 'm1.x', 'm1<RED>', 'm1<', 'x' * 3000, '%s%n', 'start', 'set', 'lambda',
       '@lambda', 'm1@@lambda', '__root__', '__settings__', '__settings__.x', '__root__@lambda', '1s', '-1s', 's', '99999999999999999999s', 'and', 'or', 'not', '==', '===', '\x00', 'a\x00b', '\u00e9', 'a rather long text that has no meaning here', '$m1.a rather long property name',
       ltab.Raw('setmetatable({},{__index=function() error("x") end})'), ltab.Raw('setmetatable({},{__index=function(t,k) return t end})'), 'application/x-ginga-settings', [None, 'x'],
       ltab.Raw('setmetatable({},{__gc=function() end})'), ltab.Raw('("a"):rep(100000)'), ltab.Raw('error()') , ltab.Raw('error({})'), ltab.Raw('error("boom")')]

def slots(t):
    """every place of a table: (container, key)"""
    out = []
    def go(x):
        ks = range(len(x)) if isinstance(x, list) else list(x)
        for k in ks:
            out.append((x, k))
            if isinstance(x[k], (list, dict)): go(x[k])
    go(t)
    return out

def tmut(t, rng):
    sl = slots(t)
    if not sl: return t, 'none'
    c, k = rng.choice(sl)
    m = rng.randrange(9)
    def val():
        return copy.deepcopy(rng.choice(BAD)) if rng.random() < .6 else copy.deepcopy((lambda s: s[0][s[1]])(rng.choice(sl)))
    if m == 0: c[k] = None; return t, 'missing'
    if m == 1 and isinstance(c, list): del c[k]; return t, 'shifted'
    if m in (2, 3): c[k] = copy.deepcopy(rng.choice(BAD)); return t, 'hostile value'
    if m == 4: c[k] = copy.deepcopy((lambda s: s[0][s[1]])(rng.choice(sl))); return t, 'value from elsewhere'
    if m == 5 and isinstance(c, list): c.insert(rng.randint(0, len(c)), val()); return t, 'inserted'
    if m == 6 and isinstance(c, list): rng.shuffle(c); return t, 'shuffled'
    if m == 7 and isinstance(c, list) and isinstance(c[k], list): c.append(copy.deepcopy(c[k])); return t, 'duplicated'
    if m == 8 and isinstance(c, dict): c[rng.choice(['x', '', 'src', 'type', 'transIn', 'delay', 'zIndex', 'left', '@lambda'])] = val(); return t, 'extra field'
    return tmut(t, rng)

CHUNKS = [b'', b'return', b'return nil', b'return 1', b'return "x"', b'return {}', b'return print', b'return {{}}', b'x', b'return {', b'error("boom")', b'error()', b'error({})', b'error(nil)',
          b'return coroutine.create(print)', b'return io.stdout', b'\x1bLua', b'\x1bLuaS\x00', b'\xff\xfe', b'\x00', b'return {"context"}', b'return {"context", "c"}', b'return {"media","m"}',
          b'return {"context","c",{},{},{{"media","m"}},{}} + 1', b'local t={"context","c"} t[5]={t} return t', b'local t={"context","c"} t[5]={{"context","d",nil,nil,{t}}} return t',
          b'local t={"and"} t[2]=t t[3]=t return {"context","c",nil,{"m@lambda"},{{"media","m"}},{{{{"start","m@lambda",t}},{{"stop","m@lambda"}}}}}',
          b'return setmetatable({},{__index=function(t,k) return "context" end})', b'return nil, "x"', b'goto x', b'return ...', b'return (...)', b'return {"context","c",...}',
          b'return {"context",1}', b'return {"context",{}}', b'return {1,2,3,4,5,6}', b'return {"context","c",1,2,3,4}', b'return {"switch","c"}',
          b'return {"context","c",nil,nil,' + b'{{"context","d",nil,nil,' * 60 + b'{{"media","m"}}' + b'}}' * 60 + b'}',
          b'return ' + b'{' * 150 + b'}' * 150, b'return ' + b'(' * 250 + b'1' + b')' * 250, b'return {"context","c",nil,nil,{{"media","c"}}}', b'return {"context","__root__"}',
          b'return {"context","c",nil,nil,{{"media","__root__"}}}', b'return {"context","c",nil,nil,{{"media","__settings__"}}}', b'return {"context","c",nil,nil,{{"media",""}}}',
          b'string.rep = nil return {"context","c"}', b'_G = nil _ENV = nil return {"context","c"}', b'table = nil return {"context","c",nil,{"m@lambda"},{{"media","m"}}}']

def malformed(w, rng, s):
    kind = rng.choice(['table', 'table', 'table', 'text', 'chunk', 'file'])
    exp = None
    run = False
    if kind == 'chunk': txt = rng.choice(CHUNKS); names = ['chunk']
    elif kind == 'file':
        names = [rng.choice(['missing', 'directory', 'binary', 'image'])]
        p = {'missing': w.dir + '/none.lua', 'directory': w.dir, 'binary': w.write('b.lua', bytes(rng.randrange(256) for _ in range(200))), 'image': w.dir + '/i.png'}[names[0]]
        w.note = dict(kind=kind, what=names)
        r = s.r('parselua', p, 320, 240)
        if r[0] != '0' or not r[1]: raise Violation('accepted' if r[0] != '0' else 'silent rejection', '%s: %s' % (names, r))
        w.count('refused'); w.seen(kind, names); return
    else:
        d, o, t = make(w, rng)
        if kind == 'table':
            names = []
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                t, n = tmut(t, rng); names.append(n)
            txt = text(t, rng)
        else:
            txt, names = mut.byte_mut(text(t, rng), rng, b'return {"and", "or", [x]=1, ["y"]="z", 1, 2, 3, nil, {"m@lambda"}}')
            if any(x in txt for x in (b'while', b'repeat', b'goto', b'os.', b'io.', b'for ')): return
    w.note = dict(kind=kind, what=names, table=txt.decode('latin-1')[:100000])
    k = rng.random()
    if k < .3: r = s.r('parseluabuf', txt, 320, 240)
    else: r = s.r('parselua', w.write('d.lua', txt), 320, 240)
    for n in names: w.count('malformed: ' + n)
    if r[0] == '1':
        w.count('malformed but accepted')
        s.cmd('dump'); s.cmd('unparse')
        if rng.random() < .5 and k >= .3:
            # what is accepted must run
            s.cmd('new', 320, 240, '', 0, 0, 0)
            try:
                if s.r('start', w.dir + '/d.lua')[0] == '1':
                    for _ in range(3): s.cmd('tick', 0, SEC // 2, 0); s.cmd('key', 'RED', 1); s.cmd('draw', 32, 24)
                s.cmd('del')
                w.count('malformed but run')
            except Crash as e:
                if e.kind != 'gerror' : raise
                w.count('diagnosed')         # a bad value, named
                w.drop()
    else:
        if not r[1]: raise Violation('silent rejection', 'the table is refused without a message')
        w.count('refused'); w.seen(txt)
        w.sample(dict(what=names, table=txt.decode('latin-1')[:300], message=r[1][:200]))
        if rng.random() < .15:
            w.count('leak checks after a refusal')
            if s.r('leak')[0] != '0': raise Violation('leak', 'memory is lost after refusing a table: ' + frames(s.stderr()))


def case(w, i, rng):
    s = w.session()
    if rng.random() < .5: faithful(w, rng, s)
    else: malformed(w, rng, s)
