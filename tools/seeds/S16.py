ID='S16'; PROPERTY='C21'
NEEDS='the lowest value of the type'
BREAKS='the least 8-bit integer is refused'
EDITS=[('lib/aux-ginga.cpp','_GINGA_XSTRTO_DEFN (int8, G_MININT8, G_MAXINT8)','_GINGA_XSTRTO_DEFN (int8, -G_MAXINT8, G_MAXINT8)')]
DEMO='''
import re
with session() as s:
    r = s.r('util', 'toint8', '-128', 10)
    check('-128' in r, r)
'''
