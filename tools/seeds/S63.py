ID='S63'; PROPERTY='C18'
NEEDS='an entry transition barWipe without a subtype'
BREAKS='the media appears from the top instead of from the left'
EDITS=[('lib/PlayerAnimator.cpp', '''          if (_transIn->subtype == "topToBottom")''', '''          if (_transIn->subtype != "leftToRight")''')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><transitionBase><transition id="t" type="barWipe" dur="2s"/></transitionBase><descriptorBase><descriptor id="de" transIn="t"/></descriptorBase></head><body id="b"><port id="p" component="m"/><media id="m" descriptor="de"><property name="bounds" value="10,10,20,20"/><property name="background" value="#ffffff"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 40, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, 0, 0); s.cmd('draw', 40, 40)
    s.cmd('tick', 0, SEC, 1); s.cmd('draw', 40, 40)
    px = s.cmd('px', 13, 26, 27, 13)[-1]
    check(px[1][2:] == 'ffffff' and px[2][2:] != 'ffffff', px)
'''
