ID='S26'; PROPERTY='C07'
NEEDS='an assignment to a property of a context, whose value refers to another property'
BREAKS='the property of the context gets the text of the reference instead of the value'
EDITS=[('lib/Context.cpp', '            evt->getParameter ("value", &value);\n            _doc->evalPropertyRef (value, &value);\n', '            evt->getParameter ("value", &value);\n')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><connectorBase><causalConnector id="k"><connectorParam name="v"/><simpleCondition role="onBegin"/><simpleAction role="set" value="$v"/></causalConnector></connectorBase></head><body id="b"><property name="y"/><port id="p" component="a"/><media id="a"><property name="x" value="7"/></media>
<link xconnector="k"><bind role="onBegin" component="a"/><bind role="set" component="b" interface="y"><bindParam name="v" value="$a.x"/></bind></link></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    s.cmd('tick', 0, SEC, 0)
    r = s.r('propref', '$b.y'); check('7' in r, r)
'''
