ID='S23'; PROPERTY='C13'
NEEDS='an import of regions or transitions through an imported descriptor base'
BREAKS='transitions of an imported document are not brought along with its descriptors'
EDITS=[('lib/Parser.cpp','list<string> extra = { "regionBase", "transitionBase" };','list<string> extra = { "regionBase" };')]
DEMO='''
N = 'xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"'
write('b.ncl', '<ncl id="b" %s><head><transitionBase><transition id="t" type="fade" dur="1s"/></transitionBase><descriptorBase><descriptor id="e" transIn="t"/></descriptorBase></head><body/></ncl>' % N)
a = write('a.ncl', '<ncl id="a" %s><head><descriptorBase><importBase alias="b" documentURI="b.ncl"/></descriptorBase></head><body><media id="m" descriptor="b#e"/></body></ncl>' % N)
with session() as s:
    r = s.r('parse', a, 40, 20); check(r[0] == '1', r)
'''
