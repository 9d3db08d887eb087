ID='S24'; PROPERTY='C23'
NEEDS='a media with an anchor played by a remote player'
BREAKS='the remote player is told that the media, not its anchor, begins and ends'
EDITS=[('lib/PlayerRemote.cpp','  sendAction (body, label);','  sendAction (body);')]
DEMO='''
import time
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body id="bd"><port id="p" component="m"/><media id="m" src="a.bin" type="application/x-ncl360"><area id="an" label="lab"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    port = s.r('rserve')[0]
    s.cmd('newdoc') if False else None
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('setprop', 'm', 'remotePlayerBaseURL', 'http://127.0.0.1:%s/x' % port, 0)
    q = []
    check(s.r('act', 'm', 'P', 'an', 'start', '')[0] == '1')
    for i in range(4):
        s.cmd('tick', 0, SEC, 0); q += [t for t in s.cmd('pump', 60) if t[0] == 'Q']
    check(any('lab' in dec(t[2]) for t in q), q)
'''
