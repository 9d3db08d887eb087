ID='S13'; PROPERTY='C18'
NEEDS='an animated colour (values from 0 to 1 instead of pixels)'
BREAKS='an animation is finished as soon as it is within half a unit of its target, which for colour channels is half-way or at once'
EDITS=[('lib/PlayerAnimator.cpp','''  if (_duration == 0 || (dir > 0 && _current >= _target)
      || (dir < 0 && _current <= _target))''','''  if (_duration == 0 || (dir > 0 && _current + .5 > _target)
      || (dir < 0 && _current - .5 < _target)) // rounds to the target''')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><media id="a"><property name="background" value="#000064"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, SEC, 0); s.cmd('draw', 40, 20)
    s.cmd('setprop', 'a', 'background', '#6400c8', 10 * SEC)
    s.cmd('draw', 40, 20); s.cmd('tick', 0, SEC, 0); s.cmd('draw', 40, 20)
    v = int([t for t in s.cmd('px', 5, 5) if t[0] == 'X'][0][1], 16)
    check((v >> 16 & 255) < 30 and (v & 255) < 130, 'after a tenth of the time: %x' % v)
'''
