ID='S08'; PROPERTY='C06'
NEEDS='the component selected by the first rule that holds cannot be started (it is playing already) while a later rule also holds'
BREAKS='the switch falls through to the next component'
EDITS=[('lib/Switch.cpp','''                  else
                    return false;''','''                  else
                    continue;''')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><ruleBase><rule id="r1" var="v" comparator="eq" value="1"/><rule id="r2" var="v" comparator="eq" value="1"/></ruleBase></head>
<body><port id="q" component="z"/><media id="st" type="application/x-ginga-settings"><property name="v" value="1"/></media><media id="z"/>
<switch id="s"><bindRule constituent="a" rule="r1"/><bindRule constituent="b" rule="r2"/><media id="a"/><media id="b"/></switch></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    s.cmd('tick', 0, SEC, 0)
    # the first component plays on its own
    s.cmd('trans', 'a', 'P', '@lambda', 'start')
    o = s.cmd('act', 's', 'P', '@lambda', 'start', '')
    check(not any(e[0] == 'b' for e in E(o)), 'another component starts: %s' % E(o))
'''
