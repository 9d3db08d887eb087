ID='S68'; PROPERTY='C26'
NEEDS='four or more files on the command line'
BREAKS='the fourth file and those after it are started and stopped at once, without being shown'
EDITS=[('src/ginga.cpp','''      gtk_widget_show_all (app);
      gtk_main ();
''','''      gtk_widget_show_all (app);
      if (i < 4)
        gtk_main ();
''')]
DEMO='''
CLI()
write('a.ncl', '<ncl id="d"><body id="b"><port id="p" component="m"/><media id="m"/></body></ncl>')
rc, out = cli(['a.ncl'] * 5, ['tick 1000 0', 'key press 65307'] * 5)
check(rc == 0 and [l.split()[0] for l in out if l.split()[0] in ('start', 'tick')] == ['start', 'tick'] * 5, (rc, out))
'''
