ID='S06'; PROPERTY='C03'
NEEDS='a reference as an operand whose property is empty or missing, compared with the text of the reference'
BREAKS='a comparison whose right operand refers to an empty property compares with the text of the reference'
EDITS=[('lib/Document.cpp','''            if (this->evalPropertyRef (right, &right))
              msg_right += " ('" + right + "')";''','''            string value;
            if (this->evalPropertyRef (right, &value) && !value.empty ())
              {
                right = value;
                msg_right += " ('" + right + "')";
              }''')]
DEMO='''
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><media id="a"><property name="x"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    check(s.r('start', write('d.ncl', doc))[0] == '1', 'start')
    check(s.r('pred', 'A', '', 0, '$a.x')[0] == '1', 'an empty property is not equal to the empty value')
'''
