ID='S32'; PROPERTY='C17'
NEEDS='a media with contents whose rectangle has a width but no height, below another media'
BREAKS='a media with an empty rectangle spoils everything painted after it'
EDITS=[('lib/Player.cpp', '  if (!_prop.visible || !(_prop.rect.width > 0 && _prop.rect.height > 0))', '  if (!_prop.visible || !(_prop.rect.width > 0 || _prop.rect.height > 0))')]
DEMO='''
import base64
open(os.path.join(T, 'i.png'), 'wb').write(base64.b64decode('iVBORw0KGgoAAAANSUhEUgAAAAIAAAACCAIAAAD91JpzAAAAEElEQVR4nGP4z8AARAwQCgAf7gP9i18U1AAAAABJRU5ErkJggg=='))
doc = """<ncl id="d" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><body><port id="p" component="a"/><port id="q" component="b"/>
<media id="a" src="i.png"><property name="height" value="0"/><property name="zIndex" value="1"/></media>
<media id="b"><property name="background" value="blue"/><property name="zIndex" value="2"/></media></body></ncl>"""
with session() as s:
    s.cmd('new', 40, 20, '', 0, 0, 0)
    r = s.r('start', write('d.ncl', doc)); check(r[0] == '1', r)
    s.cmd('tick', 0, SEC, 0); s.cmd('draw', 40, 20)
    c = [t for t in s.cmd('px', 5, 5) if t[0] == 'X'][0][1]
    check(c == 'ff0000ff', c)
'''
