"""Lockstep cases shared by the monitors of the presentation engine."""
import os, collections
from run import *
import spec, model
from gen import *
from lock import *

LEGAL = {('start', 'z'): 'o', ('start', 'p'): 'o', ('pause', 'o'): 'p', ('resume', 'p'): 'o',
         ('stop', 'o'): 'z', ('stop', 'p'): 'z', ('abort', 'o'): 'z', ('abort', 'p'): 'z'}

def legal_trace(lines, op, last=None):
    """model-free monitor: each accepted transition is one of the legal ones, and begins where the last one of its event ended"""
    n = 0
    for t in lines:
        if t[0] != 'E': continue
        n += 1
        if last is not None:
            ev = last.setdefault(t[1], {})
            k = (t[2], t[3])
            was = ev.get(k, 'z')
            if len(was) > 1:                     # its object ended meanwhile
                was = was[0] if was[0] == t[5] and t[4] in ('stop', 'abort') else 'z'
            if was != t[5]:
                raise Violation('broken history', '%s of %s.%s after %s begins in %s, but the event was %s' % (t[4], dec(t[1]), dec(t[3]), op, t[5], was))
            ev[k] = t[6]
            if t[2] == 'P' and dec(t[3]) == '@lambda' and t[6] == 'z': ev.update((x, y[0] + '*') for x, y in ev.items() if x != k and y != 'z')     # an object that ends takes its events along
        if LEGAL.get((t[4], t[5])) != t[6]:
            raise Violation('illegal transition', '%s of %s.%s went from %s to %s after %s' % (t[4], dec(t[1]), dec(t[3]), t[5], t[6], op))
    return n

class NoSuch(Exception): pass

def struct(d, dump, wd, W=320, H=240):
    df = spec.diff(spec.expect(d, W, H, uri=lambda x: 'file://%s/%s' % (wd, x)), dump)
    if df: raise Violation('structure', '; '.join(df[:4]) if isinstance(df, (list, tuple)) else str(df))

def lockcase(w, rng, knobs=None, weights=None, nops=(5, 40), ops=None, structure=True, crit=None, doc=None, each=None, after=None, lock=Lock, W=320, H=240, **okw):
    """one document, one history; returns the Lock"""
    d = doc if doc is not None else Gen(rng, **(knobs or {})).doc()
    xml = d.xml()
    path = w.write('d.ncl', xml)
    s = w.session()
    L = lock(s, w.stats)
    w.note = dict(document=xml, requests=L.ops)
    s.cmd('new', W, H, '', 0, 0, 0)
    base = dict(w.stats)
    try:
        if not L.start(path):
            if L.err: raise Violation('document refused', 'the engine refuses a valid document: %s' % L.err)
            w.count('nothing-started')
        else:
            legal_trace(L.raw, 'start', L.last)
            if structure: struct(d, L.dump, w.dir, W, H)
            O = Ops(rng, weights, **okw) if ops is None else None
            if ops is not None:
                for op in ops:
                    if not L.m.playing: break
                    L.do(op); legal_trace(L.raw, op, L.last)
            else:
                for _ in range(rng.randint(*nops)):
                    if not L.m.playing: break
                    op = each(L, O) if each else O.next(L.m)
                    L.do(op); legal_trace(L.raw, op, L.last)
            if not L.m.playing:
                # the end is told and is final
                L.s.cmd('tick', 0, 1, 0)
                st = s.r('status')
                if st[0] != '0': raise Violation('end', 'the presentation still plays after its body ended')
                w.count('ended')
        if after: after(L)
        s.cmd('del')
    except (Skip, Violation, Mismatch):
        if s.p.poll() is None and not isinstance(sys.exc_info()[1], (Violation, Mismatch)): s.cmd('del')
        raise
    delta = {k: v - base.get(k, 0) for k, v in w.stats.items() if v != base.get(k, 0)}
    if crit is None or crit(delta):
        w.seen(xml, L.ops); w.sample(dict(document=xml if len(xml) < 3000 else xml[:3000] + '...', requests=[list(o) for o in L.ops][:30]))
    return L
