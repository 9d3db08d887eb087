"""Media contents generated for the players of continuous media."""
import array, functools, math, struct
def avi(path, w, h, fps, frames):
    """frames: one (r, g, b) per frame; each is stored as it is (no compression)"""
    def ck(t, d): return t + struct.pack('<I', len(d)) + d + (b'\0' if len(d) & 1 else b'')
    def lst(t, d): return ck(b'LIST', t + d)
    stride = (w * 3 + 3) & ~3; size = stride * h
    avih = struct.pack('<14I', 1000000 // fps, size * fps, 0, 0x10, len(frames), 0, 1, size, w, h, 0, 0, 0, 0)
    strh = b'vidsDIB ' + struct.pack('<IHHIIIIIIIIHHHH', 0, 0, 0, 0, 1, fps, 0, len(frames), size, 10000, 0, 0, 0, w, h)
    strf = struct.pack('<IiiHHIIiiII', 40, w, h, 1, 24, 0, size, 0, 0, 0, 0)
    mv, idx, off = [], [], 4
    for r, g, b in frames:
        c = ck(b'00db', (bytes([b, g, r]) * w).ljust(stride, b'\0') * h)
        idx.append(b'00db' + struct.pack('<III', 0x10, off, size)); off += len(c); mv.append(c)
    body = lst(b'hdrl', ck(b'avih', avih) + lst(b'strl', ck(b'strh', strh) + ck(b'strf', strf))) + lst(b'movi', b''.join(mv)) + ck(b'idx1', b''.join(idx))
    with open(path, 'wb') as f: f.write(ck(b'RIFF', b'AVI ' + body))

@functools.lru_cache(maxsize=24)
def _tones(secs, rate, channels):
    out, ph = array.array('h'), 0.
    n = int(secs * rate)
    for i in range(n):
        ph += 2 * math.pi * tone(int(i / rate / .5)) / rate
        out.append(int(16383 * math.sin(ph)))
    a = array.array('h', bytes(2 * n * channels))
    for c in range(channels): a[c::channels] = out
    return a.tobytes()
def tone(k): return 200 + 40 * k          # Hz, in the half second k of the content
def wav(path, secs, rate=8000, channels=2):
    """a sine of half the amplitude whose frequency tells the position"""
    data = _tones(secs, rate, channels)
    with open(path, 'wb') as f:
        f.write(b'RIFF' + struct.pack('<I', 36 + len(data)) + b'WAVEfmt ' + struct.pack('<IHHIIHH', 16, 1, channels, rate, rate * channels * 2, channels * 2, 16) + b'data' + struct.pack('<I', len(data)) + data)

def color(i, k): return ((i & 63) * 4, (i >> 6) * 16, 16 + k * 24)
def index(px, k):
    """the frame a pixel shows, None for the background, -1 for anything else"""
    if px & 0xffffff == 0: return None
    r, g, b = px >> 16 & 255, px >> 8 & 255, px & 255
    if b != 16 + k * 24 or r & 3 or g & 15 or px >> 24 != 255: return -1
    return (g >> 4) * 64 + (r >> 2)
