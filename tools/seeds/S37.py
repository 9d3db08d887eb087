ID='S37'; PROPERTY='C03'
NEEDS='a property whose value is itself the text of a reference, compared in a condition'
BREAKS='the value of an operand is taken for a reference once more'
EDITS=[('lib/Document.cpp', '            if (this->evalPropertyRef (left, &left))\n              msg_left += " (\'" + left + "\')";', '            while (this->evalPropertyRef (left, &left))\n              msg_left += " (\'" + left + "\')";')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head><ruleBase><rule id="r" var="v" comparator="eq" value="7"/></ruleBase></head><body id="b"><port id="p" component="s"/><media id="set" type="application/x-ginga-settings"><property name="v" value="$o.x"/></media>
<media id="o"><property name="x" value="7"/></media><switch id="s"><bindRule constituent="a" rule="r"/><defaultComponent component="e"/><media id="a"/><media id="e"/></switch></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    o = E(s.cmd('tick', 0, 0, 0))
    check(('e', 'P', '@lambda', 'start') in o, o)
'''
