ID='S02'; PROPERTY='C07'
NEEDS='a set with a duration followed by a set of the same property without one'
BREAKS='an assignment without duration reuses the duration of the previous one, so it does not end at once'
EDITS=[('lib/Document.cpp','      evt->setParameter ("duration", act.duration);','      if (!act.duration.empty ())\n        evt->setParameter ("duration", act.duration);')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><connectorBase>
<causalConnector id="k1"><simpleCondition role="onBegin"/><simpleAction role="set" value="1" duration="3s"/></causalConnector>
<causalConnector id="k2"><simpleCondition role="onEnd"/><simpleAction role="set" value="2"/></causalConnector></connectorBase></head>
<body><port id="p" component="a"/><port id="q" component="b"/><media id="a"><property name="x"/></media><media id="b"><property name="explicitDur" value="5s"/></media>
<link xconnector="k1"><bind role="onBegin" component="a"/><bind role="set" component="a" interface="x"/></link>
<link xconnector="k2"><bind role="onEnd" component="b"/><bind role="set" component="a" interface="x"/></link></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    out = []
    for i in range(9): out += E(s.cmd('tick', 0, SEC, 0))
    x = [e for e in out if e[1] == 'A' and e[2] == 'x']
    n = [i for i, e in enumerate(out) if e == ('a', 'A', 'x', 'start')]
    check(len(n) == 2, out)
    last = E(s.cmd('tick', 0, SEC, 0))
    check(('a', 'A', 'x', 'stop') not in last, 'late end')
    check(out.count(('a', 'A', 'x', 'stop')) == 2, 'the second assignment has not ended: %s' % x)
'''
