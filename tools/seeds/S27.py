ID='S27'; PROPERTY='C20'
NEEDS='a media that is stopped while it is paused'
BREAKS='the content player of a paused media is destroyed without being stopped'
EDITS=[('lib/Media.cpp', '  if (_player->getState () != Player::SLEEPING)\n    _player->stop ();', '  if (_player->getState () == Player::OCCURRING)\n    _player->stop ();')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><port id="q" component="b"/><media id="a"/><media id="b"/></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, 0, 0)
    check(s.r('act', 'a', 'P', '@lambda', 'pause', '')[0] == '1')
    o = s.cmd('act', 'a', 'P', '@lambda', 'stop', '')
    w = [t[-1] for t in o if t[0] == 'P' and 'stop' in t]
    check(w, 'the player was not stopped: %s' % o)
'''
