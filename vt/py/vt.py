"""Driver sessions, batches, verdicts and evidence shared by all monitors."""
import os, subprocess, sys, json, re, threading, tempfile, shutil, time, hashlib, select, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VT = os.path.dirname(HERE)
ROOT = os.path.dirname(VT)
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.environ.get('VT_BUILD', os.path.join(ROOT, 'build'))
sys.path.insert(0, VT)

SAFE = set(range(33, 127)) - {ord('%')}

def enc(s):
    if isinstance(s, (int, bool)): s = str(int(s))
    b = s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s
    if not b: return '%e'
    return ''.join(chr(c) if c in SAFE else '%%%02X' % c for c in b)

def decb(s):
    if s == '%e': return b''
    if isinstance(s, str): s = s.encode('latin-1')
    return re.sub(rb'%([0-9A-F]{2})', lambda m: bytes([int(m.group(1), 16)]), s)

def dec(s):
    return decb(s).decode('utf-8', 'surrogateescape')

class Crash(Exception):
    """The process under test died; .kind/.sig describe how."""
    def __init__(self, rc, err, partial):
        self.rc, self.err, self.partial = rc, err, partial
        self.kind, self.sig = classify(rc, err)
        Exception.__init__(self, self.sig)
    def report(self):
        i = max(self.err.find('ERROR: AddressSanitizer'), 0)
        return self.err[i:i + 6000] if i else self.err[-6000:]

class Hang(Exception):
    pass

class Loops(Exception):
    """the document loops for ever within one request (seen by the driver)"""

def _stack():
    import resource
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 1 << 30
    if hard != resource.RLIM_INFINITY: want = min(want, hard)
    try: resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    except Exception: pass

def strip_addr(s):
    return re.sub(r'0x[0-9a-f]+', 'X', s)

def classify(rc, err):
    """-> (kind, signature).  kind: asan, ubsan, leak, assert, gerror, critical, exception, signal, exit"""
    m = re.search(r'runtime error: ([^\n]*)', err)
    if m:
        loc = re.search(r'([\w./+-]+):(\d+):(\d+): runtime error', err)
        return 'ubsan', 'ubsan %s in %s' % (re.sub(r'[-\d.e+]{2,}', 'N', strip_addr(m.group(1)))[:100], frames(err) or (os.path.basename(loc.group(1)) if loc else '?'))
    m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', err)
    if m:
        return 'asan', 'asan %s in %s' % (m.group(1), frames(err))
    m = re.search(r'ERROR: LeakSanitizer', err)
    if m: return 'leak', 'leak ' + frames(err)
    m = re.search(r"terminate called after throwing an instance of '([^']*)'(\s*what\(\):\s*([^\n]*))?", err)
    if m: return 'exception', 'exception %s' % m.group(1)
    m = re.search(r'ERROR:([^\n]*?):(\d+):([^\n]*?): (assertion failed[^\n]*|code should not be reached[^\n]*)', err)
    if m:
        return 'assert', 'assert %s %s' % (os.path.basename(m.group(1)), re.sub(r'\d+', 'N', m.group(4))[:120])
    m = re.search(r'-ERROR \*\*:? ?(?:[\d:.]+: )?([^\n]*)', err)
    if m: return 'gerror', 'gerror ' + m.group(1)[:200]
    m = re.search(r'ERROR \*\*: ([^\n]*)', err)
    if m: return 'gerror', 'gerror ' + m.group(1)[:200]
    if rc is not None and rc < 0: return 'signal', 'signal %d' % -rc
    return 'exit', 'exit %s' % rc

def frames(err, n=2):
    out = []
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.*?) (/[^\s:]+|\([^)]*\))', err):
        fn, f = m.group(1), m.group(2)
        if '/lib/' in f and f.startswith(REPO) or f.startswith(REPO + '/'):
            out.append(re.sub(r'\(.*', '', fn))
            if len(out) >= n: break
    return '<'.join(out) if out else '?'

CRIT = re.compile(r'-CRITICAL \*\*|CRITICAL \*\*')

# GStreamer sees only the plugins that the players need (and no sound card, camera or network)
GST = ('coreelements playback app videoconvertscale videofilter deinterlace typefindfunctions wavparse avi audioconvert audioresample '
       'audiorate autodetect volume audiofx equalizer audiotestsrc audiovisualizers').split()
GSTDIR = next((d for d in ('/usr/lib/x86_64-linux-gnu/gstreamer-1.0', '/usr/lib/aarch64-linux-gnu/gstreamer-1.0', '/usr/lib64/gstreamer-1.0', '/usr/lib/gstreamer-1.0') if os.path.isdir(d)), None)
def gst_env():
    d = os.path.join(BUILD, 'gst')
    os.makedirs(d, exist_ok=True)
    for p in GST if GSTDIR else ():
        try: os.symlink('%s/libgst%s.so' % (GSTDIR, p), '%s/libgst%s.so' % (d, p))
        except FileExistsError: pass
    return {'GST_PLUGIN_SYSTEM_PATH_1_0': d, 'GST_PLUGIN_PATH_1_0': '', 'GST_PLUGIN_PATH': '', 'GST_PLUGIN_SYSTEM_PATH': '',
            'GST_REGISTRY_1_0': os.path.join(BUILD, 'gst.reg'), 'GST_DEBUG': '0', 'GST_REGISTRY_UPDATE': 'no', 'GST_REGISTRY_FORK': 'no'}

class Session:
    """One driver process."""
    def __init__(self, binary='driver', env=None, cwd=None, timeout=60, argv=()):
        self.timeout = timeout
        e = dict(os.environ)
        e.update({'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=1:leak_check_at_exit=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0:max_allocation_size_mb=4096',
                  'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
                  'LSAN_OPTIONS': 'suppressions=%s/lsan.supp:print_suppressions=0' % VT,
                  'G_DEBUG': '', **gst_env(), 'LC_ALL': 'C.UTF-8',
                  'XDG_CACHE_HOME': os.path.join(BUILD, 'cache'),
                  'G_MESSAGES_DEBUG': '', 'HOME': BUILD, 'DISPLAY': '',
                  'ASAN_SYMBOLIZER_PATH': shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or ''})
        if env: e.update(env)
        self.errf = tempfile.TemporaryFile()
        self.p = subprocess.Popen([os.path.join(BUILD, 'bin', binary)] + list(argv), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.errf, env=e, cwd=cwd or BUILD, bufsize=1 << 16, preexec_fn=_stack)
        self.buf = b''
        self.lines = []
        self.log = []          # commands sent
    def stderr(self):
        self.errf.seek(0)
        return self.errf.read().decode('utf-8', 'replace')
    def _line(self, deadline):
        while True:
            i = self.buf.find(b'\n')
            if i >= 0:
                l, self.buf = self.buf[:i], self.buf[i + 1:]
                return l.decode('latin-1')
            left = deadline - time.monotonic()
            if left <= 0:
                if os.environ.get("VT_GDB"): os.system("gdb -p %d -batch -ex 'thread apply all bt 25' > %s.%d 2>&1" % (self.p.pid, os.environ["VT_GDB"], self.p.pid))
                self.kill(); raise Hang()
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r: continue
            b = os.read(self.p.stdout.fileno(), 1 << 18)
            if not b: return None
            self.buf += b
    def cmd(self, *a, timeout=None, on=None):
        """Sends a command, returns the trace lines (list of token lists); on(tokens) is called for each line as it arrives."""
        line = ' '.join(enc(x) if not isinstance(x, Raw) else x for x in a)
        self.log.append(line)
        out = []
        try:
            self.p.stdin.write(line.encode('latin-1') + b'\n'); self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        deadline = time.monotonic() + (timeout or self.timeout)
        while True:
            l = self._line(deadline)
            if l is None:
                try: self.p.wait(20)
                except subprocess.TimeoutExpired: self.kill()
                if self.p.returncode == 77: raise Loops()
                raise Crash(self.p.returncode, self.stderr(), out)
            if l == '.': return out
            out.append(l.split(' '))
            if on: on(out[-1])
    def r(self, *a, **k):
        """Sends a command, returns the decoded fields of its last R line."""
        o = self.cmd(*a, **k)
        for t in reversed(o):
            if t[0] == 'R': return [dec(x) for x in t[1:]]
        return None
    def kill(self):
        try:
            self.p.kill(); self.p.wait(10)
        except Exception: pass
    def close(self):
        """Ends the session normally; raises Crash if the process failed in the end."""
        try:
            self.p.stdin.write(b'quit\n'); self.p.stdin.flush()
        except Exception: pass
        deadline = time.monotonic() + self.timeout
        bye = False
        while True:
            l = self._line(deadline)
            if l is None: break
            if l == 'bye': bye = True
        try: self.p.wait(20)
        except subprocess.TimeoutExpired: self.kill()
        if not bye or self.p.returncode != 0:
            raise Crash(self.p.returncode, self.stderr(), [])
        return self.stderr()
    def __enter__(self): return self
    def __exit__(self, *a): 
        self.kill()
        self.errf.close()
        for f in (self.p.stdin, self.p.stdout):
            try: f.close()
            except Exception: pass

class Raw(str):
    pass
