ID='S21'; PROPERTY='C11'
NEEDS='a property that is given both by the descriptor and by the media'
BREAKS="the descriptor's value replaces the media's own"
EDITS=[('lib/Parser.cpp','''                  if (media->getAttributionEvent (it.first) != nullptr)
                    continue; // already defined
''','')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><descriptorBase><descriptor id="e"><descriptorParam name="x" value="1"/></descriptor></descriptorBase></head>
<body><port id="p" component="m"/><media id="m" descriptor="e"><property name="x" value="2"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    check(s.r('getprop', 'm', 'x')[0] == '2', s.r('getprop', 'm', 'x'))
'''
