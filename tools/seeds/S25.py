ID='S25'; PROPERTY='C24'
NEEDS='a script with a labelled area that is aborted while it occurs'
BREAKS='a script is not told that one of its areas was aborted'
EDITS=[('lib/Media.cpp', '          else if (evt->getLabel () != "")\n            {\n              _player->sendPresentationEvent ("stop", evt->getLabel ());', '          else if (evt->getLabel () != "" && transition == Event::STOP)\n            {\n              _player->sendPresentationEvent ("stop", evt->getLabel ());')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><media id="a" src="s.lua"><area id="x" label="l"/></media></body></ncl>"""
write('s.lua', '')
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, 0, 0)
    check(s.r('act', 'a', 'P', 'x', 'start', '')[0] == '1')
    s.cmd('tick', 0, SEC, 0)
    o = s.cmd('act', 'a', 'P', 'x', 'abort', '') + s.cmd('tick', 0, SEC, 0)
    l = [[dec(x) for x in t] for t in o if t[:2] == ['L', 'ncl']]
    check(any(t[3:6] == ['presentation', 'stop', 'l'] for t in l), l)
'''
