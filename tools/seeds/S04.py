ID='S04'; PROPERTY='C05'
NEEDS='a context nested in a sleeping context that is started directly'
BREAKS='a nested context started while its parent sleeps is not counted among the awake children, so the parent ends under it'
EDITS=[('lib/Object.cpp','''  _time = 0;
  if (_parent != nullptr && instanceof (Context *, _parent))''','''  _time = 0;
  if (instanceof (Context *, _parent) && _parent->isOccurring ())''')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="t"/><media id="t"/>
<context id="c"><context id="e"><port id="q" component="m"/><media id="m"><property name="explicitDur" value="5s"/></media></context></context></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    s.cmd('tick', 0, SEC, 0)
    check(s.r('act', 'e', 'P', '@lambda', 'start', '')[0] != '0', 'start e')
    for i in range(3): s.cmd('tick', 0, SEC, 0)
    st = state(s)
    check(st['m'][0] == st['e'][0] == st['c'][0] == 'o', 'ended too early: %s' % st)
'''
