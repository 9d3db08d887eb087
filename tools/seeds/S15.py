ID='S15'; PROPERTY='C20'
NEEDS='a media stopped at the very instant at which it started'
BREAKS='its content player is never deleted'
EDITS=[('lib/Media.cpp','''  delete _player;
  _player = nullptr;
  Object::doStop ();''','''  if (_player->getState () != Player::SLEEPING || _time > 0)
    delete _player;
  _player = nullptr;
  Object::doStop ();''')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><port id="q" component="b"/><media id="a"/><media id="b"/></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, 0, 0)
    s.cmd('act', 'a', 'P', '@lambda', 'stop', '')
    n = s.r('players')[0]; check(n in ('1', '2'), n)
    s.cmd('stop')
    check(s.r('players')[0] == '0', 'players left: %s' % s.r('players'))
'''
