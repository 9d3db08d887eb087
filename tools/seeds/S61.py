ID='S61'; PROPERTY='C22'
NEEDS='a document that imports from another directory one that itself imports a file beside it'
BREAKS='the nested import is looked for beside the main document'
EDITS=[('lib/Parser.cpp', '''  if (!st->aliasStackPeek (nullptr, &main_uri))
    main_uri = st->getURI ();''', '''  if (st->getURI () != "" || !st->aliasStackPeek (nullptr, &main_uri))
    main_uri = st->getURI ();''')]
DEMO='''
os.makedirs(os.path.join(T, 'sub'), exist_ok=True)
H = '<ncl id="%s" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head>%s</head><body id="b">%s</body></ncl>'
write('sub/two.ncl', H % ('two', '<ruleBase><rule id="r" var="v" comparator="eq" value="7"/></ruleBase>', ''))
write('sub/one.ncl', H % ('one', '<ruleBase><importBase alias="two" documentURI="two.ncl"/></ruleBase>', ''))
doc = H % ('d', '<ruleBase><importBase alias="one" documentURI="sub/one.ncl"/></ruleBase>', '<port id="p" component="m"/><media id="m"/>')
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
'''
