ID='S19'; PROPERTY='C14'
NEEDS='three or more references to one media that is declared after the first of them'
BREAKS='the last references present an object of their own'
EDITS=[('lib/Parser.cpp','          if (!st->referMapIndex (refer, &media))','          if (!st->referMapIndex (refer, &media) || media->getAliases ()->size () > 1)')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><media id="r1" refer="m"/><media id="r2" refer="m"/><media id="r3" refer="m"/><port id="p" component="m"/>
<media id="m"><area id="x" begin="1s"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, 0, 0)
    check(s.r('act', 'r3', 'P', '@lambda', 'start', '')[0] == '0', 'r3 starts although m plays')
    check(s.r('act', 'r3', 'P', '@lambda', 'pause', '')[0] == '1', 'r3')
    check([t[0] for t in [state(s)['m']]] == ['p'], state(s))
'''
