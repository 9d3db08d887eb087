ID='S09'; PROPERTY='C03'
NEEDS='a comparison whose left operand is the empty text and whose right operand refers to a property'
BREAKS='the right reference is compared literally'
EDITS=[('lib/Document.cpp',"if (right[0] == '$')","if (right[0] == '$' && left != \"\")")]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><connectorBase>
<causalConnector id="k"><compoundCondition operator="and"><simpleCondition role="onBegin"/><assessmentStatement comparator="eq"><attributeAssessment role="l" eventType="attribution" attributeType="nodeProperty"/><attributeAssessment role="r" eventType="attribution" attributeType="nodeProperty"/></assessmentStatement></compoundCondition><simpleAction role="start"/></causalConnector></connectorBase></head>
<body><port id="p" component="a"/><media id="a"><property name="x"/><property name="y"/></media><media id="b"/>
<link xconnector="k"><bind role="onBegin" component="a"/><bind role="l" component="a" interface="x"/><bind role="r" component="a" interface="y"/><bind role="start" component="b"/></link></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    o = E(s.cmd('tick', 0, SEC, 0)) + E(s.cmd('tick', 0, SEC, 0))
    check(('b', 'P', '@lambda', 'start') in o, o)
'''
