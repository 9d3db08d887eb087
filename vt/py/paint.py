"""Independent geometry and painting: what a frame must show."""
import zlib, struct
from spec import pct

PALETTE = ['#ff0000', '#00ff00', '#0000ff', '#ffff00', '#ff00ff', '#00ffff', '#804020', '#208040', '#402080', '#c0c0c0', '#ff8000', '#0080ff', '#80ff00', '#7f7f7f', '#123456', '#fedcba']
NAMES = {'red': (255, 0, 0), 'green': (0, 128, 0), 'blue': (0, 0, 255), 'white': (255, 255, 255), 'black': (0, 0, 0), 'yellow': (255, 255, 0), 'silver': (192, 192, 192), 'navy': (0, 0, 128), 'teal': (0, 128, 128)}

def rgb(s):
    """colour or None when nothing is painted"""
    if s in ('', 'transparent'): return None
    if s in NAMES: return NAMES[s]
    assert s[0] == '#', s
    h = s[1:]
    if len(h) == 3: h = ''.join(c * 2 for c in h)
    return tuple(int(h[i:i + 2], 16) for i in (0, 2, 4))

def rect(get, W, H):
    """rectangle given by property values; get(name) -> text.  Exactly one of left/right (top/bottom) may be given"""
    w = pct(get('width') or '100%', W); h = pct(get('height') or '100%', H)
    if get('right') != '': x = W - w - pct(get('right'), W)
    else: x = pct(get('left') or '0', W)
    if get('bottom') != '': y = H - h - pct(get('bottom'), H)
    else: y = pct(get('top') or '0', H)
    return x, y, w, h

def alpha(s):
    """opacity (0..255) for a transparency value"""
    s = s or '0%'
    return 255 - min(max(pct(s, 255), 0), 255)

def cells(rects, W, H):
    xs = sorted({0, W} | {min(max(v, 0), W) for r in rects for v in (r[0], r[0] + r[2])})
    ys = sorted({0, H} | {min(max(v, 0), H) for r in rects for v in (r[1], r[1] + r[3])})
    for y0, y1 in zip(ys, ys[1:]):
        for x0, x1 in zip(xs, xs[1:]): yield x0, y0, x1, y1

def inside(r, c): return r[0] <= c[0] and r[1] <= c[1] and c[2] <= r[0] + r[2] and c[3] <= r[1] + r[3]

def opaque(layers, W, H, back=(0, 0, 0)):
    """{colour: (x0, y0, x1, y1, n)} of a frame of opaque layers [(rect, rgb)], first painted first"""
    out = {}
    for c in cells([r for r, _ in layers], W, H):
        col = back
        for r, k in layers:
            if inside(r, c): col = k
        n = (c[2] - c[0]) * (c[3] - c[1])
        o = out.get(col)
        b = (c[0], c[1], c[2] - 1, c[3] - 1, n)
        out[col] = b if o is None else (min(o[0], b[0]), min(o[1], b[1]), max(o[2], b[2]), max(o[3], b[3]), o[4] + n)
    return out

def png(w, h, f):
    """PNG of w x h pixels, f(x, y) -> (r, g, b)"""
    raw = b''.join(b'\0' + b''.join(bytes(f(x, y)) for x in range(w)) for y in range(h))
    def ch(t, d): return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    return b'\x89PNG\r\n\x1a\n' + ch(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, 2, 0, 0, 0)) + ch(b'IDAT', zlib.compress(raw, 1)) + ch(b'IEND', b'')

def colors(s):
    """colours of the last frame"""
    out = {}
    for t in s.cmd('colors'):
        if t[0] == 'C':
            v = int(t[1], 16)
            out[((v >> 16) & 255, (v >> 8) & 255, v & 255)] = tuple(int(x) for x in t[2:7])
            if v >> 24 != 255: out['not opaque'] = tuple(int(x) for x in t[2:7])
    return out
