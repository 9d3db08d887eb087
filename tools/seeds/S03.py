ID='S03'; PROPERTY='C04'
NEEDS='a media entered through an anchor with an end while the schedule is rewritten'
BREAKS='the pending end of the anchor through which a media is entered is dropped, so that the anchor never ends by itself'
EDITS=[('lib/Media.cpp','(end != GINGA_TIME_NONE && it->second > end))','(end != GINGA_TIME_NONE && it->second >= end))')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="m" interface="a"/><port id="q" component="t"/><media id="t"/>
<media id="m"><area id="a" begin="2s" end="5s"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    out = []
    for i in range(40): out += E(s.cmd('tick', 0, SEC // 10, 0))
    check(('m', 'P', 'a', 'start') in out, out)
    check(('m', 'P', 'a', 'stop') in out, 'the anchor does not end: %s' % out)
'''
