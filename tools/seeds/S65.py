ID='S65'; PROPERTY='C26'
NEEDS='a resize of the window that changes its height only'
BREAKS='the presentation keeps the old height'
EDITS=[('src/ginga.cpp', '''  opt_width = e->width;
  opt_height = e->height;
  GINGA->resize (opt_width, opt_height);
''', '''  if (opt_width != e->width)
    {
      opt_width = e->width;
      opt_height = e->height;
      GINGA->resize (opt_width, opt_height);
    }
''')]
DEMO='''
CLI()
write('a.ncl', '<ncl id="d"><body id="b"><port id="p" component="m"/><media id="m"/></body></ncl>')
rc, out = cli(['-s', '300x200', 'a.ncl'], ['tick 1000 0', 'size 300 250', 'size 400 250', 'size 400 260', 'key press 65307'])
check(rc == 0 and [l for l in out if l.startswith('resize')][-1] == 'resize 400 260', (rc, out))
'''
