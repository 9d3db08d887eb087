ID='S64'; PROPERTY='C26'
NEEDS='several files, one of which (not the last) is left with Esc while it is being presented'
BREAKS='the next file is not presented and takes the process down or is refused'
EDITS=[('src/ginga.cpp', '''      gtk_main ();
      GINGA->stop ();
''', '''      gtk_main ();
''')]
DEMO='''
CLI()
write('a.ncl', '<ncl id="d"><body id="b"><port id="p" component="m"/><media id="m"/></body></ncl>')
rc, out = cli(['a.ncl', 'a.ncl'], ['tick 1000 0', 'key press 65307', 'tick 2000 1', 'tick 18000 2', 'key press 65307'])
check(rc == 0 and [l.split()[0] for l in out if l.split()[0] in ('start', 'tick')] == ['start', 'tick', 'start', 'tick', 'tick'], (rc, out))
'''
