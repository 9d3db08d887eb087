ID='S42'; PROPERTY='C10'
NEEDS='a document that is refused because of one of its elements that are not kept'
BREAKS='the wrapper of a refused element is never freed'
EDITS=[('lib/Parser.cpp', 'done:\n  if (!cached)\n    delete elt;\n  return status;', 'done:\n  if (status && !cached)\n    delete elt;\n  return status;')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><media id="m"><area id="x" label="l" begin="3s"/></media></body></ncl>"""
with session() as s:
    for i in range(3):
        r = s.r('parse', write('d.ncl', doc), 40, 20)
        check(r[0] == '0', r)
    r = s.r('leak'); check(r[0] == '0', 'memory was lost: %s' % r)
'''
