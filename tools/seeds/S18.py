ID='S18'; PROPERTY='C24'
NEEDS='a script whose directory is not that of the process, and which does something when told to stop'
BREAKS='the last cycle of a script runs in the directory of the process'
EDITS=[('lib/PlayerLua.cpp','''  evt_ncl_send_presentation (_nw, "stop", "");

  this->pwdSave ();
  ncluaw_cycle (_nw);
  this->pwdRestore ();

  ncluaw_close (_nw);''','''  evt_ncl_send_presentation (_nw, "stop", "");

  ncluaw_cycle (_nw);
  ncluaw_close (_nw);''')]
DEMO='''
import os
os.makedirs(os.path.join(T, 'sub'), exist_ok=True)
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><media id="a" src="sub/s.lua"/></body></ncl>"""
write('sub/s.lua', '')
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    o = s.cmd('tick', 0, 0, 0) + s.cmd('tick', 0, SEC, 0)
    o += s.cmd('act', 'a', 'P', '@lambda', 'stop', '')
    c = [t for t in o if t[:2] == ['L', 'cycle']]
    check(c and dec(c[-1][-1]) == 'sub', [t for t in o if t[0] == 'L'])
'''
