ID='S07'; PROPERTY='C01'
NEEDS='an assignment with a duration going on when its media is stopped, and the media started again'
BREAKS='the assignment event stays occurring when its object stops, so later assignments are refused'
EDITS=[('lib/Object.cpp','''  for (auto evt : _events)
    evt->reset ();''','''  for (auto evt : _events)
    if (evt->getType () != Event::ATTRIBUTION)
      evt->reset ();''')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><connectorBase>
<causalConnector id="k"><simpleCondition role="onSelection" key="RED"/><simpleAction role="set" value="$v" duration="5s"/><connectorParam name="v"/></causalConnector></connectorBase></head>
<body><port id="p" component="a"/><port id="q" component="b"/><media id="a"><property name="x" value="0"/></media><media id="b"/>
<link xconnector="k"><bind role="onSelection" component="b"/><bind role="set" component="a" interface="x"><bindParam name="v" value="7"/></bind></link></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    s.cmd('tick', 0, SEC, 0)
    o = E(s.cmd('key', 'RED', 1))
    check(('a', 'A', 'x', 'start') in o, o)
    check(s.r('act', 'a', 'P', '@lambda', 'stop', '')[0] == '1')
    check(s.r('act', 'a', 'P', '@lambda', 'start', '')[0] == '1')
    check(s.r('act', 'a', 'A', 'x', 'start', '3')[0] == '1', 'an assignment is refused after the restart')
'''
