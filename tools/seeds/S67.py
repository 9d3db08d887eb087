ID='S67'; PROPERTY='C04'
NEEDS='more than 16 objects that occur at once'
BREAKS='only the first sixteen objects are told of the passing of time'
EDITS=[('lib/Formatter.cpp','''    if (obj->isOccurring ())
      buf.push_back (obj);
''','''    if (obj->isOccurring () && buf.size () < 16)
      buf.push_back (obj);
''')]
DEMO='''
n = 30
doc = '<ncl id="d"><body id="b">' + ''.join('<port id="p%d" component="m%d"/><media id="m%d"><area id="a%d" begin="1s" end="3s"/></media>' % (i, i, i, i) for i in range(n)) + '</body></ncl>'
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    out = []
    for i in range(8): out += E(s.cmd('tick', 0, SEC // 2, i))
    st = sum(('m%d' % i, 'P', 'a%d' % i, 'start') in out for i in range(n)); en = sum(('m%d' % i, 'P', 'a%d' % i, 'stop') in out for i in range(n))
    check(st == n and en == n, 'of %d anchors %d begin and %d end' % (n, st, en))
'''
