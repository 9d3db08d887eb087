ID='S05'; PROPERTY='C08'
NEEDS='focus indexes of which one is a string prefix of another or which have different lengths, in a certain order'
BREAKS='the initial focus goes to the shortest focus index instead of the lowest one'
EDITS=[('lib/MediaSettings.cpp',"&& (next == \"\" || i < next))","&& (next == \"\" || i.length () < next.length ()\n                  || (i.length () == next.length () && i < next)))")]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><port id="q" component="b"/>
<media id="a"><property name="focusIndex" value="b"/></media><media id="b"><property name="focusIndex" value="ab"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    for i in range(3): s.cmd('tick', 0, SEC, 0)
    f = [t for t in s.cmd('focused') if t[0] == 'F' or t[0] == 'R']
    v = s.r('getprop', '__settings__', 'service.currentFocus')
    g = [dec(t[3]) for t in s.cmd('snap') if t[0] == 'V' and dec(t[2]) == 'service.currentFocus']
    check(g == ['ab'], 'focus is %s' % g)
'''
