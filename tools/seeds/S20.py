ID='S20'; PROPERTY='C12'
NEEDS='an area with a label and an end time'
BREAKS='the combination of two mutually exclusive attributes is accepted'
EDITS=[('lib/Parser.cpp','''      if (unlikely (elt->getAttribute ("end", &str)))
        {
          return st->errEltMutuallyExclAttributes (elt->getNode (), "label",
                                                   "end");
        }
''','')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><media id="m"><area id="x" label="l" end="3s"/></media></body></ncl>"""
with session() as s:
    r = s.r('parse', write('d.ncl', doc), 40, 20)
    check(r[0] == '0' and 'label' in r[1], r)
'''
