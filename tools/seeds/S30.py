ID='S30'; PROPERTY='C08'
NEEDS='a paused media whose focus index is lower than that of the media that occur when the focus is chosen'
BREAKS='the focus goes to a media that does not occur'
EDITS=[('lib/MediaSettings.cpp', '          if (media->isOccurring ()\n', '          if (!media->isSleeping ()\n')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><port id="q" component="b"/><media id="a"><property name="focusIndex" value="1"/></media><media id="b"><property name="focusIndex" value="2"/></media>
<media id="c"><property name="focusIndex" value="3"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, 0, 0); s.cmd('tick', 0, SEC, 0); s.cmd('tick', 0, SEC, 0)
    check(s.r('act', 'a', 'P', '@lambda', 'pause', '')[0] == '1')
    check(s.r('act', 'c', 'P', '@lambda', 'start', '')[0] == '1')
    s.cmd('tick', 0, SEC, 0); s.cmd('tick', 0, SEC, 0)
    r = s.r('getprop', '__settings__', 'service.currentFocus')
    check('2' in r, r)
'''
