ID='S29'; PROPERTY='C05'
NEEDS='a context paused while one of its children sleeps and a later one occurs'
BREAKS='the children after one that cannot be paused are not paused with their context'
EDITS=[('lib/Context.cpp', '            lambda->transition (Event::PAUSE);', '            if (!lambda->transition (Event::PAUSE))\n              break;')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="c"/><context id="c"><port id="q" component="a"/><port id="r" component="e"/><media id="a"/><media id="b"/><media id="e"/><media id="f"/></context></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, 0, 0); s.cmd('tick', 0, SEC, 0)
    o = E(s.cmd('act', 'c', 'P', '@lambda', 'pause', ''))
    check(('a', 'P', '@lambda', 'pause') in o and ('e', 'P', '@lambda', 'pause') in o, o)
'''
