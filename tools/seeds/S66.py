ID='S66'; PROPERTY='C17'
NEEDS='a text that is shown already gets another font size'
BREAKS='the text keeps the size in which it was first rendered until something else changes'
EDITS=[('lib/PlayerText.cpp','''      _prop.fontSize = value;
      _dirty = true;
''','''      if (_prop.fontSize.empty ())
        _dirty = true;
      _prop.fontSize = value;
''')]
DEMO='''
write('t.txt', 'abc')
doc = """<ncl id="d"><body id="b"><port id="p" component="m"/>
<media id="m" src="t.txt"><property name="fontSize" value="%s"/><property name="fontColor" value="white"/></media></body></ncl>"""
def show(size, other=None):
    with session() as s:
        s.cmd('new', 200, 100, '', 0, 0, 0)
        r = s.r('start', write('d.ncl', doc % size)); check(r[0] == '1', r)
        s.cmd('tick', 0, 0, 0); s.cmd('draw', 200, 100)
        if other: s.cmd('setprop', 'm', 'fontSize', other, 0); s.cmd('draw', 200, 100)
        return s.r('hash')[0]
a, b = show('10'), show('30')
check(a != b, 'sizes look alike')
check(show('10', '30') == b, 'the text keeps its size')
'''
