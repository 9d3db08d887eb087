ID='S47'; PROPERTY='C06'
NEEDS='a switch whose default component is declared before its rules'
BREAKS='the default component wins over rules that hold when it is declared before them'
EDITS=[('lib/Parser.cpp', '                  defaults.push_back (obj);\n                  continue;', '                  swtch->addRule (obj, new Predicate (Predicate::VERUM));\n                  continue;'),
       ('lib/Parser.cpp', '          // Add defaults to the end of rule list.\n          for (auto obj : defaults)\n            swtch->addRule (obj, new Predicate (Predicate::VERUM));\n', '')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><ruleBase><rule id="r" var="v" comparator="eq" value="7"/></ruleBase></head><body id="b"><port id="p" component="s"/><media id="set" type="application/x-ginga-settings"><property name="v" value="7"/></media>
<switch id="s"><defaultComponent component="e"/><bindRule constituent="a" rule="r"/><media id="a"/><media id="e"/></switch></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    o = E(s.cmd('tick', 0, 0, 0))
    check(('a', 'P', '@lambda', 'start') in o, o)
'''
