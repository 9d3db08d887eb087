ID='S12'; PROPERTY='C17'
NEEDS='a z-order of 256 or more on a media of a lower z-index'
BREAKS='the z-order outweighs the z-index'
EDITS=[('lib/Formatter.cpp','''  if (z1 < z2)
    return -1;
  if (z1 > z2)
    return 1;
  if (zo1 < zo2)
    return -1;
  if (zo1 > zo2)
    return 1;
  return 0;''','''  // a single key: z-index first, then z-order
  z1 = z1 * 256 + zo1;
  z2 = z2 * 256 + zo2;
  return (z1 < z2) ? -1 : (z1 > z2) ? 1 : 0;''')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><port id="q" component="b"/>
<media id="a"><property name="background" value="red"/><property name="zIndex" value="1"/><property name="zOrder" value="300"/></media>
<media id="b"><property name="background" value="blue"/><property name="zIndex" value="2"/><property name="zOrder" value="1"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, SEC, 0); s.cmd('draw', 40, 20)
    check([t for t in s.cmd('px', 5, 5) if t[0] == 'X'][0][1] == 'ff0000ff', 'the lower one is on top')
'''
