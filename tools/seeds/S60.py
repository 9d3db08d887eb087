ID='S60'; PROPERTY='C09'
NEEDS='a key as the first request after the presentation has come to its end by itself'
BREAKS='the key is handed to the objects of a document that was just deleted'
EDITS=[('lib/Formatter.cpp', '''  _GINGA_CHECK_EOS (this);
  if (_state != GINGA_STATE_PLAYING)
    return false;

  // IMPORTANT: When''', '''  _GINGA_CHECK_EOS (this);

  // IMPORTANT: When''')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body id="b"><port id="p" component="m"/><media id="m"><property name="explicitDur" value="1s"/></media></body></ncl>"""
with session() as s:
    for last in (('tick', 0, 0, 0), ('key', 'RED', 1)):
        s.cmd('new', 40, 20, '', 0, 0, 0)
        r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
        s.cmd('tick', 0, 0, 0)
        s.cmd('tick', 0, 2 * SEC, 1)
        s.cmd(*last)
        check(s.r('status')[0] == '0', 'the presentation goes on')
        s.cmd('del')
'''
