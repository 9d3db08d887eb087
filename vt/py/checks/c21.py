from run import *
import re, math
from fractions import Fraction as F
ID = 'C21'
QUICK, THOROUGH = 40000, 2000000
PER_SESSION = 300
RULE = ('texts drawn from the grammar of each conversion and near it (boundary numbers, signs, exponents, blanks, truncations, single-character edits, non-ASCII, very long, embedded quotes and '
        'separators); each result of the real function, run under the sanitizers, is compared with an exact (rational) re-implementation written from its description; about 25 calls a case; '
        'non-trivial when the case has both accepted and refused texts')

WS = ' \t\n\f\r'
NUMRE = re.compile(r'[ \t\n\v\f\r]*([+-]?)(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)')
def prefix_number(s):
    """(exact value, rest) of the longest decimal number at the start of s, or (None, s)"""
    m = NUMRE.match(s)
    if not m: return None, s
    v = m.group(1) + m.group(2)
    if v.endswith('.'): v += '0'
    x = re.match(r'(.*)[eE]([+-]?\d+)$', v)
    if x and len(x.group(2)) > 5: v = x.group(1) + ('e-5000' if x.group(2)[0] == '-' else 'e5000')
    return F(v), s[m.end():]

def odd(s):
    """texts whose number is outside the decimal notation (hexadecimal, inf, nan) are not judged"""
    return bool(re.match(r'[ \t\n\v\f\r]*[+-]?(0[xX]|[iInN])', s))

def huge(x): return x is not None and (abs(x) > F(10) ** 300 or 0 < abs(x) < F(10) ** -290)

NUMS = ['0', '1', '-1', '+1', '10', '100', '255', '256', '254.5', '0.5', '.5', '5.', '1e3', '1e-3', '1E2', '-0', '007', '127', '128', '-128', '-129', '32767', '65535', '65536', '2147483647', '2147483648',
        '-2147483648', '-2147483649', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616',
        '99999999999999999999999', '1e400', '-1e400', '1e-400', '33.333333', '0.1', '0.29', '1e', '1e+', '--1', '+-1', '- 1', '1 2', '1.2.3', '0x10', 'inf', 'nan', '1,5', '0b1', '1_000']
SUF = ['', '', '', 's', 'S', ' s', 's ', '%', ' %', '%%', 'px', 'ms', ':', ' ', '\n', '\t', 'e', '.', 'x']
def num(r):
    k = r.random()
    if k < .5: return r.choice(NUMS)
    if k < .7: return '%d' % r.randint(-300, 300)
    if k < .85: return repr(round(r.uniform(-1000, 1000), r.randint(0, 9)))
    return '%d.%0*d' % (r.randint(0, 99999), r.randint(1, 12), r.randint(0, 10 ** 6))
def near(r, s):
    k = r.randrange(7)
    if not s: return r.choice(['', ' ', '\u00e9'])
    i = r.randrange(len(s))
    if k == 0: return s[:i] + s[i + 1:]
    if k == 1: return s[:i] + r.choice(' \t%s:.-+e0{}=\'",/\\#x\u00e9') + s[i:]
    if k == 2: return s[:i]
    if k == 3: return r.choice([' ', '\t\n', '']) + s + r.choice([' ', '  ', ''])
    if k == 4: return s + s
    if k == 5: return s.swapcase()
    return s[:i] + s[i].swapcase() + s[i + 1:]
def text(r):
    k = r.random()
    if k < .15: return r.choice(['', ' ', '\t', 'a', '\u00e9', '%s%n%d', 'a' * 3000, '\\', "'", '"', '{}', '\x7f', '\u20ac\U0001f600'])
    return ''.join(r.choice('ab AB,=;:/.%-_\t\u00e9\u00df') for _ in range(r.randint(0, 12)))

def dbl(x):
    """the double nearest to a rational"""
    try: return float(x)
    except OverflowError: return math.copysign(math.inf, x)

def eq(a, b): return a == b or abs(a - b) <= abs(b) * 1e-12

class T:
    def __init__(self, w, s): self.w, self.s, self.acc, self.ref = w, s, 0, 0
    def call(self, *a):
        self.w.note = dict(call=list(a))
        r = self.s.r('util', *a)
        self.w.count('calls'); self.w.count('calls ' + a[0])
        if r == ['fail']: self.ref += 1
        else: self.acc += 1
        return r
    def want(self, a, r, e):
        if r != e: raise Violation('value ' + a[0], '%s of %r gives %s, expected %s' % (a[0], a[1:], r, e))

def bool_(t, r):
    s = r.choice(['true', 'false', 'TRUE', 'False', 'tRuE', 'yes', '1', '0', 'truee', 'tru', '', ' true', 'true ', 'falsetrue'])
    if r.random() < .2: s = near(r, s)
    g = t.call('bool', s)
    l = ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)
    t.want(('bool', s), g, ['1'] if l == 'true' else ['0'] if l == 'false' else ['fail'])

NAMED = {'red': (255, 0, 0), 'green': (0, 128, 0), 'lime': (0, 255, 0), 'blue': (0, 0, 255), 'white': (255, 255, 255), 'black': (0, 0, 0), 'yellow': (255, 255, 0), 'silver': (192, 192, 192), 'gray': (128, 128, 128),
         'maroon': (128, 0, 0), 'purple': (128, 0, 128), 'olive': (128, 128, 0), 'navy': (0, 0, 128), 'teal': (0, 128, 128), 'aqua': (0, 255, 255), 'fuchsia': (255, 0, 255)}
def color(t, r):
    k = r.randrange(6)
    e = None
    if k == 0:
        n = r.choice(list(NAMED)); s = n if r.random() < .7 else n.upper(); e = [x / 255. for x in NAMED[n]] + [1.]
    elif k == 1:
        n = r.choice([1, 2, 4]); h = ['%0*x' % (n, r.randrange(16 ** n)) for _ in range(3)]
        s = '#' + ''.join(h if r.random() < .5 else [x.upper() for x in h]); e = [int(x, 16) / (16. ** n - 1) for x in h] + [1.]
    elif k == 2:
        c = [r.randint(0, 255) for _ in range(3)]; s = 'rgb(%d,%d,%d)' % tuple(c); e = [x / 255. for x in c] + [1.]
    elif k == 3:
        c = [r.randint(0, 255) for _ in range(3)]; al = r.choice(['0', '1', '0.5', '.25']); s = 'rgba(%d,%d,%d,%s)' % (tuple(c) + (al,)); e = [x / 255. for x in c] + [float(al)]
    elif k == 4: s = ''; e = [0., 0., 0., 0.]
    else:
        s = r.choice(['x', '#', '#1', '#12', '#1234567', '#12345', '#ggg', '#12345g', 'rgb(', 'rgb()', 'rgb(1,2)', 'rgba(1,2,3)', 'redd', 're', 'rgb(1;2;3)', '123456', '\u00e9', '#\u00e9', 'rgba(1,2,3,', 'notacolour', '%s', 'rgb(a,b,c)']); e = 'fail'
    g = t.call('color', s)
    if e == 'fail':
        if g != ['fail']: raise Violation('value color', '%r is taken as the colour %s' % (s, g))
    else:
        if g == ['fail'] or any(abs(float(x) - y) > 1e-6 for x, y in zip(g, e)): raise Violation('value color', '%r gives %s, expected %s' % (s, g, e))

def split(s, c):
    """the pieces between the separators, without an empty last one"""
    p = s.split(c)
    if p[-1] == '': p.pop()
    return p
def strip(s): return s.strip(WS)

def list_(t, r):
    c = r.choice(',;= |')
    s = c.join(text(r) if r.random() < .5 else num(r) for _ in range(r.randint(0, 6)))
    if r.random() < .2: s = near(r, s)
    mn, mx = r.choice([(0, -1), (1, -1), (2, 2), (4, 4), (0, 3), (3, 5), (1, 1)])
    p = split(s, c)
    n = len(p)
    e = ['fail'] if n < mn or (mx != -1 and n > mx) else ['ok'] + [strip(x) for x in p]
    g = t.call('list', s, c, str(mn), str(mx))
    t.want(('list', s, c, mn, mx), g, e)
    g = t.call('split', s, c)
    t.want(('split', s, c), g, ['ok'] + p)

def parse_table(s):
    x = strip(s)
    if len(x) < 2 or x[0] != '{' or x[-1] != '}': return None
    m = {}
    for it in split(x[1:-1], ','):
        p = split(it, '=')
        if len(p) != 2: return None
        k, v = strip(p[0]), strip(p[1])
        if len(v.encode()) < 2 or not (v[0] == v[-1] == "'" or v[0] == v[-1] == '"'): return None
        m[k] = v[1:-1]
    return m
def table(t, r):
    def item():
        q = r.choice('\'"')
        return '%s%s=%s%s%s%s' % (r.choice(['', ' ']), text(r).replace(',', '').replace('=', '') if r.random() < .8 else text(r), r.choice(['', ' ']), q, text(r).replace(',', '').replace('=', '') if r.random() < .8 else text(r), q if r.random() < .93 else r.choice(['', '"', "'"]))
    s = r.choice(['', '', ' ']) + '{' + ','.join(item() for _ in range(r.randint(0, 4))) + '}' + r.choice(['', '', '\n'])
    if r.random() < .3: s = near(r, s)
    e = parse_table(s)
    g = t.call('table', s)
    if e is None: t.want(('table', s), g, ['fail'])
    else:
        if g == ['fail']: raise Violation('value table', '%r is refused' % s)
        x = g[1:]
        got = dict(zip(x[::2], x[1::2]))
        t.want(('table', s), got, e)

def time_exp(s):
    """seconds (exact) or None"""
    x = s.rstrip(WS)
    v, rest = prefix_number(x)
    if v is None:
        # (an empty text is an empty time)
        return F(0) if x == '' else None
    if rest in ('', 's'): return v if v >= 0 else None
    if rest[0] != ':' or v < 0: return None
    h = v
    v, rest = prefix_number(rest[1:])
    if v is None or v < 0 or not rest.startswith(':'): return None
    m = v
    v, rest = prefix_number(rest[1:])
    if v is None or v < 0 or rest: return None
    return h * 3600 + m * 60 + v
def time(t, r):
    k = r.random()
    if k < .6: s = num(r) + r.choice(['', 's', 's', 's', 'S', ' s', 'ms', 's ', '\n'])
    else: s = ':'.join(num(r) if r.random() < .4 else '%02d' % r.randint(0, 70) for _ in range(r.choice([1, 2, 3, 3, 3, 3, 3, 4])))
    if r.random() < .25: s = near(r, s)
    if any(odd(p) or huge(prefix_number(p)[0]) for p in s.split(':')): t.call('time', s); return
    if any('-' in p and prefix_number(p)[0] == 0 for p in s.split(':')): t.call('time', s); return        # minus zero
    e = time_exp(s)
    if e is not None and e * 10 ** 9 >= 2 ** 63: e = None
    g = t.call('time', s)
    if e is None: t.want(('time', s), g, ['fail'])
    elif g == ['fail']:
        if abs(e * 10 ** 9 - 2 ** 63) > 2 ** 12: raise Violation('value time', '%r is refused' % s)
    else:
        d = abs(int(g[0]) - e * 10 ** 9)
        if d > 1 + e * 10 ** 9 / 2 ** 51: raise Violation('value time', '%r gives %s ns, expected %s' % (s, g[0], float(e * 10 ** 9)))

def percent(t, r):
    s = num(r) + r.choice(['', '%', '%', '%', 'px', ' %', '%x'])
    if r.random() < .1: s = r.choice(['', '%', 'abc', '%5', '\u00e9'])
    if odd(s): t.call('percent', s, '100', '0', '100'); return
    base, mn, mx = r.choice([(100, 0, 2147483647), (320, 0, 2147483647), (255, 0, 255), (1920, -2147483648, 2147483647), (0, 0, 100), (7, 10, 20), (2147483647, 0, 2147483647)])
    v, rest = prefix_number(s)
    if v is None: v, rest = F(0), s if not s.startswith('%') else s
    p = rest.startswith('%')
    x = v * base / 100 if p else v
    e = mn if x <= mn else mx if x >= mx else (math.floor(x + F(1, 2)) if x >= 0 else math.ceil(x - F(1, 2)))
    g = int(t.call('percent', s, str(base), str(mn), str(mx))[0])
    half = abs(abs(x) - math.floor(abs(x)) - F(1, 2)) < F(1, 10 ** 6)
    if g != e and not (half and abs(g - e) == 1): raise Violation('value percent', 'percent %r of %d in [%d, %d] gives %d, expected %d' % (s, base, mn, mx, g, e))
    if r.random() < .3:
        x = v * 255 / 100 if p else v
        e = 0 if x <= 0 else 255 if x >= 255 else math.floor(x + F(1, 2))
        g = int(t.call('pixel', s)[0])
        half = abs(x - math.floor(x) - F(1, 2)) < F(1, 10 ** 6) if abs(x) < 1000 else False
        if g != e and not (half and abs(g - e) == 1): raise Violation('value pixel', 'pixel %r gives %d, expected %d' % (s, g, e))
    if r.random() < .3:
        vv, rest = prefix_number(s)
        t.want(('ispercent', s), t.call('ispercent', s), ['1'] if vv is not None and rest.startswith('%') else ['0'])
        if not huge(v):
            g = t.call('dorp', s)
            e = dbl(v / 100 if p else v)
            if not eq(float(g[0]), e) or g[1] != '01'[p]: raise Violation('value dorp', '%r gives %s, expected %s %s' % (s, g, e, p))

def strtod(t, r):
    s = r.choice(['', '', ' ', '\t']) + num(r) + r.choice(SUF)
    if r.random() < .2: s = near(r, s)
    g = t.call('strtod', s)
    if odd(s): return
    v, _ = prefix_number(s)
    if v is None: return t.want(('strtod', s), g, ['fail'])
    if g == ['fail']: raise Violation('value strtod', '%r is refused' % s)
    if not huge(v) and not eq(float(g[0]), dbl(v)): raise Violation('value strtod', '%r gives %s, expected %s' % (s, g, dbl(v)))

DIG = '0123456789abcdefghijklmnopqrstuvwxyz'
def prefix_int(s, base):
    m = re.match(r'[ \t\n\v\f\r]*([+-]?)', s)
    neg, rest = m.group(1) == '-', s[m.end():]
    if base == 16 and re.match(r'0[xX][0-9a-fA-F]', rest): rest = rest[2:]
    n = 0; k = 0
    for c in rest:
        d = DIG.find(c.lower()) if c.isascii() else -1
        if d < 0 or d >= base: break
        n = n * base + d; k += 1
    if not k: return None
    return -n if neg else n
R = {'toint': (-2 ** 31, 2 ** 31 - 1), 'toint8': (-128, 127), 'toint64': (-2 ** 63, 2 ** 63 - 1), 'touint': (0, 2 ** 32 - 1), 'touint8': (0, 255), 'touint64': (0, 2 ** 64 - 1), 'strtoll': (-2 ** 63, 2 ** 63 - 1), 'strtoull': (0, 2 ** 64 - 1)}
def ints(t, r):
    f = r.choice(list(R))
    base = r.choice([10, 10, 10, 16, 2, 8, 36])
    s = r.choice(['', '', ' ', '\t ']) + (num(r) if base == 10 or r.random() < .4 else r.choice(['', '-', '+', '0x']) + ''.join(r.choice(DIG) for _ in range(r.randint(1, 6)))) + r.choice(SUF)
    if r.random() < .15: s = near(r, s)
    if base == 2 and '0b' in s.lower(): return                               # newer C libraries take it
    n = prefix_int(s, base)
    un = 'u' in f
    if f.startswith('to') and (n is None or (un and n < 0)): return       # these demand a number
    g = t.call(f, s, str(base))
    lo, hi = R[f]
    if n is None or (un and n < 0): return t.want((f, s, base), g, ['fail'])
    t.want((f, s, base), g, [str(min(max(n, lo), hi))])

def fold(s): return bytes(c + 32 if 65 <= c <= 90 else c for c in s.encode())
def strings(t, r):
    a = text(r); b = a if r.random() < .2 else near(r, a) if r.random() < .6 else text(r)
    x, y = fold(a), fold(b)
    t.want(('casecmp', a, b), t.call('casecmp', a, b), [str((x > y) - (x < y))])
    b = r.choice([a[:r.randint(0, len(a))], a[r.randint(0, len(a)):], b])
    A, B = a.encode(), b.encode()
    t.want(('prefix', a, b), t.call('prefix', a, b), [str(int(A.startswith(B)))])
    t.want(('suffix', a, b), t.call('suffix', a, b), [str(int(A.endswith(B)))])
    s = r.choice(['', ' ', '\t\n ', '\f\r']) + a + r.choice(['', ' ', '  \n', '\r\n'])
    t.want(('strip', s), t.call('strip', s), [strip(s)])
    n = r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 12345])
    t.want(('build', a, n, b), t.call('build', a, str(n), b), ['%s|%d|%s' % (a, n, b)])
    g = t.call('assign', a, b)
    if g[0] != str(2 * len(a.encode())) or g[1] != a + a: raise Violation('value assign', 'assign of %r gives %s' % (a, g))

def num2(t, r):
    a = r.choice([0., 1., -1., .1, 1e-9, 1e9, 3.5]); b = a + r.choice([0, 1e-12, 1e-3, .5, -1e-3, 1])
    g = t.call('floateq', repr(a), repr(b))
    d = abs(F(a) - F(b))
    if d < F(1, 10 ** 9) and g != ['1'] or d > F(1, 100) and g != ['0']: raise Violation('value floateq', 'floateq of %r and %r gives %s' % (a, b, g))

FNS = [bool_, color, list_, table, table, time, time, percent, percent, strtod, ints, ints, strings, num2]
def case(w, i, rng):
    s = w.session()
    t = T(w, s)
    log = []
    for _ in range(25): rng.choice(FNS)(t, rng)
    if t.acc and t.ref: w.seen(i, t.acc, t.ref)
    if i < 2: w.sample(dict(last=w.note))
    if i % 40 == 0:
        w.count('leak checks')
        if s.r('leak')[0] != '0': raise Violation('leak', 'memory is lost by the conversions: ' + s.stderr()[-2000:])
