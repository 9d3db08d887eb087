ID='S01'; PROPERTY='C02'
NEEDS='a link with a delayed action whose target object sleeps when the link fires'
BREAKS='delayed link actions are queued on the clock of the target object, so those aimed at a sleeping object are dropped'
EDITS=[('lib/Document.cpp','ctx->addDelayedAction (next_evt, next_act.transition,','next_obj->addDelayedAction (next_evt, next_act.transition,')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><connectorBase><causalConnector id="k">
<simpleCondition role="onBegin"/><simpleAction role="start" delay="2s"/></causalConnector></connectorBase></head>
<body><port id="p" component="a"/><media id="a"/><media id="b"/>
<link xconnector="k"><bind role="onBegin" component="a"/><bind role="start" component="b"/></link></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    for i in range(2): s.cmd('tick', 0, SEC, 0)
    check(state(s)['b'][0] == 'z', 'b started early')
    for i in range(2): s.cmd('tick', 0, SEC, 0)
    check(state(s)['b'][0] == 'o', 'the delayed start of a sleeping media is lost')
'''
