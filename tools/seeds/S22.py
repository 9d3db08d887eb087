ID='S22'; PROPERTY='C10'
NEEDS='an imported document that itself imports another one'
BREAKS='the document imported at the second level is never released'
EDITS=[('lib/Parser.cpp','UDATA_SET (elt, "xmlDoc", xml, xmlDocCleanup);','UDATA_SET (elt, "xmlDoc", xml, st->_aliasStack.size () > 1 ? nullptr : xmlDocCleanup);')]
DEMO='''
N = 'xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"'
write('c.ncl', '<ncl id="c" %s><head><regionBase><region id="r"/></regionBase></head><body/></ncl>' % N)
write('b.ncl', '<ncl id="b" %s><head><regionBase><importBase alias="c" documentURI="c.ncl"/></regionBase></head><body/></ncl>' % N)
a = write('a.ncl', '<ncl id="a" %s><head><regionBase><importBase alias="b" documentURI="b.ncl"/></regionBase></head><body/></ncl>' % N)
with session() as s:
    r = s.r('parse', a, 40, 20); check(r[0] == '1', r)
    check(s.r('leak')[0] == '0', 'memory is lost')
'''
