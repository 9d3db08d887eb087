ID='S14'; PROPERTY='C19'
NEEDS='the window resized between two presentations'
BREAKS='a resize while stopped is forgotten: the option keeps the old size and the next presentation is laid out for it'
EDITS=[('lib/Formatter.cpp','''  g_assert (width > 0 && height > 0);
  _opts.width = width;
  _opts.height = height;

  // This must be the first check.
  if (_state != GINGA_STATE_PLAYING)
    return;
''','''  // This must be the first check.
  if (_state != GINGA_STATE_PLAYING)
    return;

  g_assert (width > 0 && height > 0);
  _opts.width = width;
  _opts.height = height;
''')]
DEMO='''
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    s.cmd('resize', 80, 60)
    check(s.r('geti', 'width')[0] == '80', s.r('opts'))
'''
