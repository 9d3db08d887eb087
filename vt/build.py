#!/usr/bin/env python3
"""Builds the harness binaries from /repo's current working tree.

Objects are cached by content (source + every header that could be included +
flags), so the result never depends on time stamps.  Usage: build.py [target...]
"""
import hashlib, os, subprocess, sys, glob, re, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VT_REPO', '/repo')
VT = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('VT_BUILD', os.path.join(os.path.dirname(VT), 'build'))
PKGS = ('glib-2.0 gobject-2.0 gio-2.0 gthread-2.0 gmodule-2.0 libsoup-2.4 libxml-2.0 gdk-3.0 '
        'gdk-pixbuf-2.0 cairo fontconfig pango pangocairo librsvg-2.0 gstreamer-1.0 '
        'gstreamer-base-1.0 gstreamer-app-1.0 gstreamer-video-1.0 gtk+-3.0 atk jsoncpp').split()
SKIP = {'PlayerHTML.cpp'}   # needs CEF; the project itself leaves it out

def sh(cmd):
    return subprocess.check_output(cmd, text=True).split()

def lua_flags():
    for p in ('lua5.3', 'lua-5.3', 'lua53', 'lua'):
        try:
            return sh(['pkg-config', '--cflags', p]), sh(['pkg-config', '--libs', p])
        except subprocess.CalledProcessError:
            pass
    return ['-I/usr/include/lua5.3'], ['-llua5.3']

SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,function,nullability',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

class Builder:
    def __init__(self):
        os.makedirs(os.path.join(OUT, 'obj'), exist_ok=True)
        os.makedirs(os.path.join(OUT, 'bin'), exist_ok=True)
        self.cc = 'clang++'
        lc, ll = lua_flags()
        self.inc = ['-I' + os.path.join(VT, 'stubs'), '-I' + os.path.join(OUT, 'gen'),
                    '-I' + os.path.join(REPO, 'lib'), '-I' + os.path.join(REPO, 'tests')] + \
            sh(['pkg-config', '--cflags'] + PKGS) + lc
        self.libs = sh(['pkg-config', '--libs'] + PKGS) + ll + ['-lpthread']
        self.defs = ['-DGINGA_VERIF=1', '-DWITH_LUA=1']
        self.config()
        h = hashlib.sha256()
        hdrs = sorted(glob.glob(REPO + '/lib/*.h') + glob.glob(REPO + '/tests/*.h') +
                      glob.glob(VT + '/stubs/**/*.h', recursive=True) + glob.glob(VT + '/src/*.h'))
        for f in hdrs:
            h.update(f.encode()); h.update(open(f, 'rb').read())
        h.update(open(os.path.join(OUT, 'gen', 'config.h'), 'rb').read())
        self.hdrhash = h.hexdigest()

    def config(self):
        d = {}
        for line in open(os.path.join(REPO, 'CMakeLists.defs.txt')):
            m = re.match(r'set\((PACKAGE[A-Z_]*|VERSION) +"?([^"$)]*)"?\)', line)
            if m: d[m.group(1)] = m.group(2)
        d['PACKAGE_VERSION'] = d.get('VERSION', '')
        d['TOP_SRCDIR'] = d['ABS_TOP_SRCDIR'] = REPO + '/'
        d['GINGADATADIR'] = '/usr/share/ginga/'; d['GINGABINDIR'] = '/usr/bin'
        txt = re.sub(r'@(\w+)@', lambda m: d.get(m.group(1), ''),
                     open(os.path.join(REPO, 'build-cmake/config.h.in')).read())
        os.makedirs(os.path.join(OUT, 'gen'), exist_ok=True)
        p = os.path.join(OUT, 'gen', 'config.h')
        if not os.path.exists(p) or open(p).read() != txt:
            open(p, 'w').write(txt)

    def flags(self, variant):
        base = ['-std=c++14', '-g1', '-w', '-fPIC'] + self.defs
        if variant == 'asan': return base + ['-O1'] + SAN
        if variant == 'fuzz': return base + ['-O1', '-fsanitize=fuzzer-no-link'] + SAN
        if variant == 'plain': return base + ['-O1']
        raise ValueError(variant)

    def pch(self, variant):
        """precompiled header for the big system headers only"""
        src = os.path.join(VT, 'src', 'pch.h')
        key = hashlib.sha256((open(src).read() + ' '.join(self.flags(variant) + self.inc) + ' content').encode()).hexdigest()[:24]
        out = os.path.join(OUT, 'obj', 'pch-%s.pch' % key)
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            subprocess.check_call([self.cc] + self.flags(variant) + self.inc + ['-Xclang', '-fvalidate-ast-input-files-content', '-x', 'c++-header', src, '-o', tmp])
            os.rename(tmp, out)
        return out

    def obj(self, src, variant, pch):
        key = hashlib.sha256((self.hdrhash + src + ' '.join(self.flags(variant) + self.inc) + pch).encode()
                             + open(src, 'rb').read()).hexdigest()[:32]
        out = os.path.join(OUT, 'obj', os.path.basename(src) + '-' + key + '.o')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            cmd = [self.cc] + self.flags(variant) + ['-include-pch', pch, '-Xclang', '-fvalidate-ast-input-files-content'] + self.inc + ['-c', src, '-o', tmp]
            r = subprocess.run(cmd, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                sys.stderr.write(r.stderr); raise SystemExit('build: cannot compile ' + src)
            os.rename(tmp, out)
        return out

    def libsources(self):
        return [f for f in sorted(glob.glob(REPO + '/lib/*.cpp')) if os.path.basename(f) not in SKIP]

    def link(self, name, variant, sources, extra=()):
        pch = self.pch(variant)
        with ThreadPoolExecutor(8) as ex:
            srcs = sorted(self.libsources() + sources, key=lambda f: -os.path.getsize(f))
            objs = list(ex.map(lambda s: self.obj(s, variant, pch), srcs))
        key = hashlib.sha256(('|'.join(objs) + '|'.join(extra)).encode()).hexdigest()[:32]
        out = os.path.join(OUT, 'bin', name)
        stamp = out + '.key'
        if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key):
            tmp = out + '.%d.tmp' % os.getpid()
            cmd = [self.cc] + self.flags(variant) + list(extra) + objs + ['-o', tmp] + self.libs
            subprocess.check_call(cmd)
            os.rename(tmp, out); open(stamp, 'w').write(key)
        self.gc()
        return out

    def gc(self):
        fs = glob.glob(os.path.join(OUT, 'obj', '*.o'))
        if len(fs) > 400:
            for f in sorted(fs, key=os.path.getmtime)[:len(fs) - 200]:
                os.unlink(f)

TARGETS = {
    'driver': ('asan', ['src/driver.cpp', 'src/sound.cpp', 'src/stubs.cpp'], []),
    'cli': ('asan', ['src/cli.cpp', 'src/shim.cpp', 'src/stubs.cpp', REPO + '/src/ginga.cpp'], ['-Wl,--wrap=_ZN5Ginga6createEPK12GingaOptions', '-rdynamic']),
    'driver-plain': ('plain', ['src/driver.cpp', 'src/sound.cpp', 'src/stubs.cpp'], []),
}

def build(target):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        v, srcs, extra = TARGETS[target]
        return Builder().link(target, v, [os.path.join(VT, s) for s in srcs], extra)

if __name__ == '__main__':
    t = time.time()
    for tgt in sys.argv[1:] or ['driver']:
        print(build(tgt), '%.1fs' % (time.time() - t))
