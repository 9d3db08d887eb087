ID='S10'; PROPERTY='C15'
NEEDS='a table with an anchor without begin time that follows one with a begin time'
BREAKS='the anchor gets the begin time of the previous one'
EDITS=[('lib/ParserLua.cpp','  Time begin, end;','  Time begin = 0, end;'),('lib/ParserLua.cpp','      begin = 0;\n','')]
DEMO='''
doc = """return {"context", "c", nil, {"a@lambda"}, {{"media", "a", nil, {{"x", "3s", "5s"}, {"y", nil, "9s"}}}}}"""
with session() as s:
    s.cmd('new', 100, 100, '', 0, 0, 0)
    r = s.r('start', write('d.lua', doc)); check(r[0] == '1', r)
    o = []
    for i in range(3): o += E(s.cmd('tick', 0, SEC, 0))
    check(('a', 'P', 'y', 'start') in o, 'y has not begun: %s' % o)
'''
