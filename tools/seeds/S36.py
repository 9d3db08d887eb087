ID='S36'; PROPERTY='C12'
NEEDS='a bind that names a port of another context than its component'
BREAKS='the reference to an interface that the component does not have is accepted'
EDITS=[('lib/Parser.cpp', '          if (ctx->getId () != obj->getId ())\n            goto fail;\n\n', '')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body id="b"><port id="p" component="c"/><context id="c"><port id="q" component="m"/><media id="m"/></context><context id="e"><port id="r" component="n"/><media id="n"/></context>
<port id="z" component="c" interface="r"/></body></ncl>"""
with session() as s:
    r = s.r('parse', write('d.ncl', doc), 40, 20)
    check(r[0] == '0' and 'interface' in r[1], r)
'''
