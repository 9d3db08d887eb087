ID='S11'; PROPERTY='C16'
NEEDS='a region with a percent height inside a region whose width and height differ'
BREAKS='its height is relative to the height of the screen instead of that of the enclosing region'
EDITS=[('lib/Parser.cpp','      rect.height = ginga::parse_percent (str, parent.height, 0, G_MAXINT);','      rect.height = ginga::parse_percent (str, screen.height, 0, G_MAXINT);')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><regionBase><region id="r" height="50%" width="50%"><region id="q" height="50%" width="50%"/></region></regionBase>
<descriptorBase><descriptor id="e" region="q"/></descriptorBase></head><body><port id="p" component="a"/><media id="a" descriptor="e"><property name="background" value="red"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 400, 200, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, SEC, 0); s.cmd('draw', 400, 200)
    c = [t for t in s.cmd('colors') if t[0] == 'C' and t[1] == 'ffff0000']
    check(c and c[0][2:6] == ['0', '0', '99', '49'], c)
'''
